#include "rt.h"

#include <link.h>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

#include <cstdarg>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {

char const *const fault_names[F_COUNT] = {"interrupt",     "cancel",          "model_stop",  "abandon",   "alloc_failure",
                                          "user_callback", "clock_jump",      "thread_stall", "spurious_wakeup",
                                          "bad_input",     "signal",          "time_limit",  "reconfigure",
                                          "preemption"};

Stats g_stats;
bool g_on = false;

// race.cc or race_stub.cc
extern bool g_race;
void race_acquire(void const *obj);
void race_release(void const *obj);
void race_create(int child);
void race_join(int child);
void race_alloc(void *p, size_t n);
void race_free(void *p, size_t n, uintptr_t pc);
thread_local int t_arena_override = -1;
bool g_virtual_signals = false;

// ------------------------------------------------------------------ raw syscalls

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static void fut_wait(std::atomic<int> *p) {
    while (p->load(std::memory_order_acquire) == 0) {
        raw6(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    p->store(0, std::memory_order_relaxed);
}

static void fut_post(std::atomic<int> *p) {
    p->store(1, std::memory_order_release);
    raw6(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------------ heap

namespace {

constexpr uintptr_t BASE = 0x100000000000ULL;
constexpr size_t ARENA_SIZE = 0x100000000ULL; // 4 GB reserved each
constexpr uintptr_t STACKS = BASE + 3 * ARENA_SIZE;
constexpr size_t STACK_SIZE = 8U << 20;
constexpr int MAX_THREADS = 80;
constexpr uint32_t MAGIC_USED = 0xA110CA7E;
constexpr uint32_t MAGIC_FREE = 0xDEADF4EE;

struct Header {
    uint32_t magic;
    uint16_t cls;
    uint16_t off; // units of 16 from real block start (aligned blocks)
    uint64_t size;
};
static_assert(sizeof(Header) == 16);

constexpr int N_CLS = 64 + 4 * 24;

size_t cls_size(int c) {
    if (c < 64) {
        return (c + 1) * 16;
    }
    c -= 64;
    int e = c / 4;
    int m = c % 4;
    size_t base = size_t(1024) << e;
    return base + (m + 1) * (base / 4);
}

int size_cls(size_t n) {
    if (n <= 1024) {
        return n == 0 ? 0 : static_cast<int>((n + 15) / 16 - 1);
    }
    int c = 64;
    while (cls_size(c) < n) {
        ++c;
        if (c >= N_CLS) {
            return -1;
        }
    }
    return c;
}

struct FreeNode {
    FreeNode *next;
};

struct Heap {
    uintptr_t begin = 0, cur = 0, end = 0;
    FreeNode *free_[N_CLS] = {};
    // quarantine ring
    static constexpr int QN = 4096;
    void *q[QN] = {};
    uint32_t qh = 0;
    int layout = 0;
    bool quarantine = false;
    uint64_t rng = 88172645463325252ULL;
    uint64_t rnd() {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng;
    }
};

__attribute__((init_priority(101))) Heap g_heap[3] = {};
bool g_heap_init = false;
std::atomic_flag g_heap_lock = ATOMIC_FLAG_INIT;
char const *g_corrupt = nullptr;

void heap_init() {
    g_heap_init = true;
    void *p = mmap(reinterpret_cast<void *>(BASE), 3 * ARENA_SIZE + MAX_THREADS * STACK_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(BASE)) {
        char const msg[] = "sim: cannot map arena\n";
        (void)!write(2, msg, sizeof(msg) - 1);
        _exit(97);
    }
    for (int i = 0; i < 3; ++i) {
        g_heap[i].begin = g_heap[i].cur = BASE + i * ARENA_SIZE + 64;
        g_heap[i].end = BASE + (i + 1) * ARENA_SIZE;
    }
}

struct HeapLock {
    HeapLock() {
        while (g_heap_lock.test_and_set(std::memory_order_acquire)) {
            raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
    }
    ~HeapLock() { g_heap_lock.clear(std::memory_order_release); }
};

void corrupt(char const *what) {
    g_corrupt = what;
    if (g_on) {
        fatal("heap", what);
    }
    abort();
}

void refill(Heap &h, int c) {
    size_t bs = cls_size(c) + sizeof(Header);
    int n = bs <= 256 ? 32 : bs <= 4096 ? 8 : 1;
    if (h.cur + n * bs > h.end) {
        n = 1;
        if (h.cur + bs > h.end) {
            return;
        }
    }
    uintptr_t slots[32];
    for (int i = 0; i < n; ++i) {
        slots[i] = h.cur + i * bs;
    }
    h.cur += n * bs;
    if (h.layout == 2) {
        for (int i = n - 1; i > 0; --i) {
            std::swap(slots[i], slots[h.rnd() % (i + 1)]);
        }
    }
    for (int i = 0; i < n; ++i) {
        // the free list is LIFO: push in reverse for ascending
        auto a = h.layout == 0 ? slots[n - 1 - i] : slots[i];
        auto *node = reinterpret_cast<FreeNode *>(a + sizeof(Header));
        auto *hd = reinterpret_cast<Header *>(a);
        hd->magic = MAGIC_FREE;
        hd->cls = static_cast<uint16_t>(c);
        node->next = h.free_[c];
        h.free_[c] = node;
    }
}

int cur_arena();

void *heap_alloc(size_t n, int arena) {
    if (UNLIKELY(!g_heap_init)) {
        heap_init();
    }
    HeapLock lock;
    Heap &h = g_heap[arena];
    int c = size_cls(n);
    if (c < 0) {
        return nullptr;
    }
    if (h.free_[c] == nullptr) {
        refill(h, c);
        if (h.free_[c] == nullptr) {
            return nullptr;
        }
    }
    auto *node = h.free_[c];
    h.free_[c] = node->next;
    auto *hd = reinterpret_cast<Header *>(reinterpret_cast<uintptr_t>(node) - sizeof(Header));
    if (hd->magic != MAGIC_FREE) {
        corrupt("heap metadata overwritten (buffer overflow or use after free)");
    }
    hd->magic = MAGIC_USED;
    hd->off = 0;
    hd->size = n;
    if (UNLIKELY(g_race)) {
        race_alloc(node, n);
    }
    return node;
}

void heap_free(void *p) {
    if (p == nullptr) {
        return;
    }
    auto a = reinterpret_cast<uintptr_t>(p);
    if (a < BASE || a >= BASE + 3 * ARENA_SIZE) {
        corrupt("free of foreign pointer");
    }
    int arena = static_cast<int>((a - BASE) / ARENA_SIZE);
    auto *hd = reinterpret_cast<Header *>(a - sizeof(Header));
    if (hd->magic == MAGIC_FREE) {
        corrupt("double free");
    }
    if (hd->magic != MAGIC_USED) {
        corrupt("free of corrupted block");
    }
    if (hd->off != 0) {
        auto off = hd->off;
        hd->magic = MAGIC_FREE;
        a -= off * 16;
        hd = reinterpret_cast<Header *>(a - sizeof(Header));
        p = reinterpret_cast<void *>(a);
        if (hd->magic != MAGIC_USED) {
            corrupt("free of corrupted aligned block");
        }
    }
    HeapLock lock;
    Heap &h = g_heap[arena];
    if (arena == A_RUN) {
        memset(p, 0xDD, hd->size < 4096 ? hd->size : 4096);
    }
    hd->magic = MAGIC_FREE;
    if (h.quarantine && arena == A_RUN) {
        auto *&slot = h.q[h.qh++ % Heap::QN];
        void *old = slot;
        slot = p;
        if (old == nullptr) {
            return;
        }
        p = old;
        hd = reinterpret_cast<Header *>(reinterpret_cast<uintptr_t>(p) - sizeof(Header));
    }
    auto *node = static_cast<FreeNode *>(p);
    node->next = h.free_[hd->cls];
    h.free_[hd->cls] = node;
}

size_t heap_usable(void *p) {
    auto *hd = reinterpret_cast<Header *>(reinterpret_cast<uintptr_t>(p) - sizeof(Header));
    return hd->size;
}

} // namespace

bool heap_corrupt(char const **what) {
    *what = g_corrupt;
    return g_corrupt != nullptr;
}

// ------------------------------------------------------------------ threads

enum State : uint8_t { RUNNABLE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_TICK, DONE };

struct Thread {
    int id;
    int root; // thread of the harness from which this thread descends
    std::atomic<int> go;
    State state;
    bool timed;
    bool timedout;
    bool detached;
    bool woken;
    void const *obj;
    uint64_t deadline;
    int64_t prio;
    int locks;
    uint64_t runticks;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    pthread_t real;
    Ctx ctx;
    Cb cb;
};

namespace {

Thread *g_thr[MAX_THREADS];
int g_nthr = 0;
thread_local Thread *t_self = nullptr;

SchedConfig g_cfg;
Rng g_srng{1};
uint64_t g_tick = 0;
uint64_t g_next = UINT64_MAX; // next tick at which the block fast path must stop
uint64_t g_next_preempt = UINT64_MAX;
uint64_t g_extra_ns = 0;
int64_t g_rt_offset = 0;
uint64_t g_alarm = 0; // deadline of virtual alarm
int64_t g_prio_low = -1;
int g_starved = -1;
uint64_t g_starve_until = 0;
// kept outside of the heap: decisions are recorded in the middle of allocations
constexpr size_t MAX_TAKEN = 2000000;
Decision *g_taken = nullptr;
size_t g_taken_n = 0;
void record(uint64_t tick, char kind, int64_t value) {
    if (g_taken == nullptr) {
        g_taken = static_cast<Decision *>(mmap(nullptr, MAX_TAKEN * sizeof(Decision), PROT_READ | PROT_WRITE,
                                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    if (g_taken_n < MAX_TAKEN) {
        g_taken[g_taken_n++] = {tick, kind, value};
    }
}
size_t g_cur_s = 0, g_cur_c = 0, g_cur_j = 0;
void (*g_fatal)(char const *, char const *) = nullptr;
pthread_key_t g_exit_key;
uint8_t g_cov[1 << 16];

int64_t g_oom = -1;
int64_t g_oom_more = 0;
bool g_oom_fired = false;
bool g_oom_rewrite = false;

void (*g_sig[65])(int) = {};
bool g_sig_ok = true;
uint64_t g_sig_tick = UINT64_MAX;
int g_sig_no = 0;

template <class F> F real(char const *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

inline void hmix(uint64_t v) {
    g_stats.hash = (g_stats.hash ^ v) * 0x100000001B3ULL;
    g_stats.hash ^= g_stats.hash >> 29;
}
inline void smix(uint64_t v) {
    g_stats.sched_hash = (g_stats.sched_hash ^ v) * 0x100000001B3ULL;
    g_stats.sched_hash ^= g_stats.sched_hash >> 31;
}

uint64_t now() { return g_tick * g_cfg.tick_ns + g_extra_ns; }

void compute_next() {
    uint64_t n = g_cfg.tick_limit;
    if (g_next_preempt < n) {
        n = g_next_preempt;
    }
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i]->state == W_TICK && g_thr[i]->deadline < n) {
            n = g_thr[i]->deadline;
        }
    }
    if (g_cfg.explicit_decisions && g_cur_s < g_cfg.decisions.size()) {
        size_t i = g_cur_s;
        while (i < g_cfg.decisions.size() && g_cfg.decisions[i].kind != 's') {
            ++i;
        }
        if (i < g_cfg.decisions.size() && g_cfg.decisions[i].tick < n) {
            n = g_cfg.decisions[i].tick;
        }
    }
    if (g_sig_tick < n) {
        n = g_sig_tick;
    }
    if (n <= g_tick) {
        n = g_tick + 1;
    }
    g_next = n;
}

void schedule_preempt() {
    if (g_cfg.explicit_decisions || g_cfg.strategy == 0 || g_cfg.block_mean == 0) {
        g_next_preempt = UINT64_MAX;
    } else {
        // roughly geometric over several scales
        uint64_t m = g_cfg.block_mean >> g_srng.below(4);
        g_next_preempt = g_tick + 1 + g_srng.below(2 * m + 1);
    }
}

bool runnable(Thread *t) {
    switch (t->state) {
        case RUNNABLE: return true;
        case W_COND:
        case W_SLEEP: return t->timed && t->deadline <= now();
        case W_TICK: return t->deadline <= g_tick;
        default: return false;
    }
}

void wake(Thread *t, bool timeout) {
    t->state = RUNNABLE;
    t->timedout = timeout;
    t->obj = nullptr;
}

void switch_to(Thread *t) {
    Thread *me = t_self;
    if (t->state != RUNNABLE) {
        wake(t, true);
    }
    if (t == me) {
        return;
    }
    ++g_stats.switches;
    hmix(0x51 + t->id);
    smix((static_cast<uint64_t>(me->id) << 8) | static_cast<uint64_t>(t->id));
    t->runticks = 0;
    fut_post(&t->go);
    fut_wait(&me->go);
}

int g_in_handler = 0;

void deliver_signal(int sig) {
    auto *h = g_sig[sig];
    if (h != nullptr && h != SIG_DFL && h != SIG_IGN) {
        auto oc = t_self->ctx;
        t_self->ctx = Ctx::Host;
        ++g_in_handler;
        ++g_stats.faults[sig == SIGALRM ? F_TIMELIMIT : F_SIGNAL];
        h(sig);
        --g_in_handler;
        t_self->ctx = oc;
    }
}

Thread *next_cyclic(Thread *cur, Thread **cand, int n) {
    for (int i = 0; i < n; ++i) {
        if (cand[i]->id > cur->id) {
            return cand[i];
        }
    }
    return cand[0];
}

//! Decide who runs next. `must`: the current thread cannot continue.
void choose(Yield kind, bool must) {
    Thread *me = t_self;
    if (UNLIKELY(g_tick >= g_cfg.tick_limit)) {
        fatal("hang", "step limit exceeded");
    }
again:
    Thread *cand[MAX_THREADS];
    int n = 0;
    Thread *due = nullptr;
    for (int i = 0; i < g_nthr; ++i) {
        auto *t = g_thr[i];
        if (t != me || !must) {
            if (runnable(t)) {
                if (t->state == W_TICK && due == nullptr) {
                    due = t;
                }
                cand[n++] = t;
            }
        }
    }
    if (n == 0 && must && me->state != DONE && runnable(me)) {
        cand[n++] = me;
    }
    if (n == 0) {
        // advance the clock to the next deadline
        uint64_t best = UINT64_MAX;
        Thread *tick_waiter = nullptr;
        for (int i = 0; i < g_nthr; ++i) {
            auto *t = g_thr[i];
            if ((t->state == W_COND || t->state == W_SLEEP) && t->timed && t->deadline < best) {
                best = t->deadline;
            }
            if (t->state == W_TICK && (tick_waiter == nullptr || t->deadline < tick_waiter->deadline)) {
                tick_waiter = t;
            }
        }
        if (g_alarm != 0 && g_sig_ok && g_alarm < best) {
            best = g_alarm;
        }
        if (best != UINT64_MAX) {
            if (best > now()) {
                g_extra_ns += best - now();
            }
            if (g_alarm != 0 && g_sig_ok && g_alarm <= now() && !(me->state == DONE)) {
                g_alarm = 0;
                deliver_signal(SIGALRM);
                if (me->state == RUNNABLE) {
                    must = false;
                }
            }
            goto again;
        }
        if (tick_waiter != nullptr) {
            due = tick_waiter;
            cand[n++] = tick_waiter;
        } else {
            fatal("deadlock", "all threads are blocked");
        }
    }
    Thread *def = nullptr;
    if (due != nullptr) {
        // fault injector thread: runs as soon as its time has come
        switch_to(due);
        compute_next();
        return;
    }
    if (must || !runnable(me)) {
        def = next_cyclic(me, cand, n);
    } else if (kind == Y_YIELD || kind == Y_SLEEP) {
        def = next_cyclic(me, cand, n);
    } else {
        def = me;
    }
    if (def == me && me->runticks > 20000000 && n > 1) {
        def = next_cyclic(me, cand, n);
    }
    Thread *t = def;
    if (g_cfg.explicit_decisions) {
        while (g_cur_s < g_cfg.decisions.size() &&
               (g_cfg.decisions[g_cur_s].kind != 's' || g_cfg.decisions[g_cur_s].tick < g_tick)) {
            ++g_cur_s;
        }
        if (g_cur_s < g_cfg.decisions.size() && g_cfg.decisions[g_cur_s].tick == g_tick) {
            auto v = g_cfg.decisions[g_cur_s].value;
            ++g_cur_s;
            for (int i = 0; i < n; ++i) {
                if (cand[i]->id == v) {
                    t = cand[i];
                }
            }
            if (t->id != v && v >= 0 && v < g_nthr && g_thr[v]->state == W_COND) {
                t = g_thr[v];
                ++g_stats.faults[F_SPURIOUS];
            }
        }
    } else if (g_cfg.strategy != 0) {
        bool preempt = g_tick >= g_next_preempt;
        if (g_cfg.spurious != 0 && g_srng.below(1000) < g_cfg.spurious) {
            for (int i = 0; i < g_nthr; ++i) {
                if (g_thr[i]->state == W_COND && g_thr[i] != me) {
                    t = g_thr[i];
                    ++g_stats.faults[F_SPURIOUS];
                    break;
                }
            }
        }
        if (t == def) {
            switch (g_cfg.strategy) {
                case 1:
                case 4: {
                    bool sw = preempt || must || kind == Y_YIELD ||
                              (kind != Y_BLOCK && g_srng.below(1000) < (kind == Y_ALLOC ? g_cfg.alloc_num : g_cfg.sync_num));
                    if (sw && n > 0) {
                        t = cand[g_srng.below(n)];
                        if (kind == Y_YIELD && t == me) {
                            t = def;
                        }
                        if (preempt && t == me && n > 1) {
                            t = next_cyclic(me, cand, n);
                        }
                    }
                    if (g_cfg.strategy == 4) {
                        if (g_tick > g_starve_until) {
                            if (g_srng.below(4) == 0) {
                                g_starved = static_cast<int>(g_srng.below(g_nthr));
                                g_starve_until = g_tick + 1 + g_srng.below(200000);
                                ++g_stats.faults[F_STALL];
                            } else {
                                g_starved = -1;
                                g_starve_until = g_tick + 1 + g_srng.below(20000);
                            }
                        }
                        if (t->id == g_starved && n > 1) {
                            t = next_cyclic(t, cand, n);
                        }
                    }
                    break;
                }
                case 2: {
                    if (kind == Y_YIELD || preempt) {
                        me->prio = g_prio_low--;
                    }
                    Thread *b = nullptr;
                    for (int i = 0; i < n; ++i) {
                        if (b == nullptr || cand[i]->prio > b->prio) {
                            b = cand[i];
                        }
                    }
                    if (kind != Y_BLOCK || preempt) {
                        t = b;
                    }
                    break;
                }
                case 3: {
                    if (kind != Y_BLOCK && kind != Y_ALLOC) {
                        t = next_cyclic(me, cand, n);
                    } else if (preempt) {
                        t = next_cyclic(me, cand, n);
                    }
                    break;
                }
                default: break;
            }
        }
        if (preempt) {
            schedule_preempt();
        }
    }
    if (t != def) {
        record(g_tick, 's', t->id);
        ++g_stats.faults[F_PREEMPT];
    }
    if (t->state == W_COND && !runnable(t)) {
        wake(t, false); // spurious
    }
    compute_next();
    switch_to(t);
}

//! Yield point of the running thread.
void yield(Yield kind, bool must = false) {
    ++g_tick;
    ++g_stats.yields;
    ++t_self->runticks;
    if (UNLIKELY(g_alarm != 0) && now() >= g_alarm && g_sig_ok && t_self->locks == 0 && t_self->ctx != Ctx::Harness && !must) {
        g_alarm = 0;
        deliver_signal(SIGALRM);
    }
    if (UNLIKELY(g_tick >= g_sig_tick) && g_sig_ok && t_self->locks == 0 && t_self->ctx != Ctx::Harness && !must) {
        g_sig_tick = UINT64_MAX;
        deliver_signal(g_sig_no);
    }
    hmix(static_cast<uint64_t>(kind) * 131 + static_cast<uint64_t>(t_self->id));
    choose(kind, must);
}

inline bool active() { return g_on && t_self != nullptr; }
inline bool yieldable() { return g_on && t_self != nullptr && t_self->ctx != Ctx::Harness; }

int cur_arena() {
    if (!g_on) {
        return A_BOOT;
    }
    if (t_arena_override >= 0) {
        return t_arena_override;
    }
    return A_RUN;
}

Thread *new_thread() {
    int oa = t_arena_override;
    t_arena_override = A_HARNESS;
    if (g_nthr >= MAX_THREADS) {
        fatal("harness", "too many threads");
    }
    auto *t = new (heap_alloc(sizeof(Thread), A_HARNESS)) Thread();
    t->id = g_nthr;
    t->root = t_self == nullptr ? t->id : t_self->root;
    t->state = RUNNABLE;
    t->prio = static_cast<int64_t>(g_srng.below(1000000));
    g_thr[g_nthr++] = t;
    if (UNLIKELY(g_race)) {
        race_create(t->id);
    }
    t_arena_override = oa;
    ++g_stats.threads;
    return t;
}

void thread_finish(void *p) {
    auto *t = static_cast<Thread *>(p);
    t_self = t; // TLS still valid
    t->ctx = Ctx::Host;
    ++g_tick;
    hmix(0xE0 + t->id);
    t->state = DONE;
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i]->state == W_JOIN && g_thr[i]->obj == t) {
            wake(g_thr[i], false);
        }
    }
    // pick successor without blocking ourselves
    Thread *cand[MAX_THREADS];
    int n = 0;
    for (;;) {
        n = 0;
        for (int i = 0; i < g_nthr; ++i) {
            if (runnable(g_thr[i])) {
                cand[n++] = g_thr[i];
            }
        }
        if (n > 0) {
            break;
        }
        uint64_t best = UINT64_MAX;
        Thread *tw = nullptr;
        for (int i = 0; i < g_nthr; ++i) {
            auto *o = g_thr[i];
            if ((o->state == W_COND || o->state == W_SLEEP) && o->timed && o->deadline < best) {
                best = o->deadline;
            }
            if (o->state == W_TICK) {
                tw = o;
            }
        }
        if (best != UINT64_MAX) {
            if (best > now()) {
                g_extra_ns += best - now();
            }
            continue;
        }
        if (tw != nullptr) {
            cand[n++] = tw;
            break;
        }
        fatal("deadlock", "all threads are blocked after a thread ended");
    }
    Thread *nx = next_cyclic(t, cand, n);
    if (!g_cfg.explicit_decisions && g_cfg.strategy != 0) {
        auto *c = cand[g_srng.below(n)];
        if (c != nx) {
            t_arena_override = A_HARNESS;
            record(g_tick, 's', c->id);
            nx = c;
        }
    } else if (g_cfg.explicit_decisions) {
        while (g_cur_s < g_cfg.decisions.size() &&
               (g_cfg.decisions[g_cur_s].kind != 's' || g_cfg.decisions[g_cur_s].tick < g_tick)) {
            ++g_cur_s;
        }
        if (g_cur_s < g_cfg.decisions.size() && g_cfg.decisions[g_cur_s].tick == g_tick) {
            for (int i = 0; i < n; ++i) {
                if (cand[i]->id == g_cfg.decisions[g_cur_s].value) {
                    nx = cand[i];
                }
            }
            ++g_cur_s;
        }
    }
    if (nx->state != RUNNABLE) {
        wake(nx, true);
    }
    smix(0xE000 + nx->id);
    compute_next();
    t_arena_override = A_HARNESS; // whatever glibc still frees/allocates at thread exit
    fut_post(&nx->go);
}

void *trampoline(void *p) {
    auto *t = static_cast<Thread *>(p);
    fut_wait(&t->go);
    t_self = t;
    t->ctx = Ctx::Host;
    real<int (*)(pthread_key_t, void const *)>("pthread_setspecific")(g_exit_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

int start_thread(Thread *t) {
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, reinterpret_cast<void *>(STACKS + t->id * STACK_SIZE), STACK_SIZE);
    static auto rc = real<int (*)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *)>("pthread_create");
    int r = rc(&t->real, &attr, trampoline, t);
    pthread_attr_destroy(&attr);
    return r;
}

} // namespace

// ------------------------------------------------------------------ public interface

void set_fatal(void (*f)(char const *, char const *)) { g_fatal = f; }
void fatal(char const *cls, char const *msg) {
    if (t_self != nullptr) {
        t_self->ctx = Ctx::Harness;
    }
    t_arena_override = A_HARNESS;
    if (g_fatal != nullptr) {
        g_fatal(cls, msg);
    }
    (void)!write(2, msg, strlen(msg));
    _exit(98);
}

void set_root() { t_self->root = t_self->id; }
int root_id() { return t_self != nullptr ? t_self->root : -1; }
int self_id() { return t_self != nullptr ? t_self->id : -1; }
uint64_t tick() { return g_tick; }
uint64_t now_ns() { return now(); }
void advance_ns(uint64_t ns) { g_extra_ns += ns; }
void mix(uint64_t v) { hmix(v); }
std::vector<Decision> taken_decisions() { return {g_taken, g_taken + g_taken_n}; }
static Ctx g_dummy_ctx = Ctx::Host;
static Cb g_dummy_cb = CB_NONE;
Ctx &ctx() { return t_self != nullptr ? t_self->ctx : g_dummy_ctx; }
Cb &cb() { return t_self != nullptr ? t_self->cb : g_dummy_cb; }

void point(Yield kind, uint64_t info) {
    if (yieldable()) {
        hmix(info);
        yield(kind);
    }
}

void sleep_ns(uint64_t ns) {
    if (!active()) {
        return;
    }
    auto *me = t_self;
    me->state = W_SLEEP;
    me->timed = true;
    me->deadline = now() + ns;
    yield(Y_SLEEP, true);
}

bool wait_tick(uint64_t target) {
    auto *me = t_self;
    me->woken = false;
    if (target <= g_tick) {
        return true;
    }
    me->state = W_TICK;
    me->deadline = target;
    compute_next();
    yield(Y_SLEEP, true);
    return !me->woken;
}

void wake_tick(int tid) {
    auto *t = g_thr[tid];
    if (t->state == W_TICK) {
        t->woken = true;
        wake(t, false);
    }
}

void arm_oom(int64_t n) {
    // the upper half says how many more allocations fail afterwards
    g_oom = n < 0 ? n : n & 0xFFFFFFFF;
    g_oom_more = n < 0 ? 0 : n >> 32;
    g_oom_fired = false;
}
bool oom_fired() { return g_oom_fired; }
void disarm_oom() {
    g_oom = -1;
    g_oom_more = 0;
}
void settle_oom() {
    if (g_oom_fired) {
        disarm_oom();
    }
}
void oom_rewriting(bool on) { g_oom_rewrite = on; }

void arm_signal(uint64_t after, int sig) {
    g_sig_tick = g_tick + after;
    g_sig_no = sig;
    compute_next();
}

static void (*g_exit_hook)(int) = nullptr;
void set_exit(void (*hook)(int)) { g_exit_hook = hook; }
void quit() {
    for (;;) {
        raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
}
void accept_signals(bool on) { g_sig_ok = on; }
void clear_alarm() {
    g_alarm = 0;
    g_sig_tick = UINT64_MAX;
    compute_next();
}

void coverage_reset() { memset(g_cov, 0, sizeof(g_cov)); }
void copy_coverage(uint8_t *out, size_t n) {
    memset(out, 0, n);
    for (size_t i = 0; i < sizeof(g_cov); ++i) {
        if (g_cov[i] != 0) {
            out[(i / 8) % n] |= static_cast<uint8_t>(1U << (i % 8));
        }
    }
}

void run(SchedConfig const &cfg, void (*f)(void *), void *arg) {
    g_cfg = cfg;
    g_srng = Rng{cfg.seed};
    g_stats = Stats{};
    g_tick = 0;
    auto &h = g_heap[A_RUN];
    h.layout = cfg.layout;
    h.quarantine = cfg.quarantine;
    h.rng = cfg.seed * 0x9E3779B97F4A7C15ULL | 1;
    g_prio_low = -1;
    pthread_key_create(&g_exit_key, thread_finish);
    // the caller's thread acts as a parked pseudo thread: simulated thread 0 has its own deterministic stack
    struct Boot {
        void (*f)(void *);
        void *arg;
        std::atomic<int> done{0};
    };
    static Boot boot;
    boot.f = f;
    boot.arg = arg;
    real<void *>("pthread_create"); // warm up
    real<void *>("pthread_join");
    auto *t = new_thread();
    t->fn = [](void *p) -> void * {
        auto *b = static_cast<Boot *>(p);
        b->f(b->arg);
        g_on = false;
        fut_post(&b->done);
        for (;;) {
            pause();
        }
        return nullptr;
    };
    t->arg = &boot;
    schedule_preempt();
    compute_next();
    if (start_thread(t) != 0) {
        fatal("harness", "cannot start main thread");
    }
    g_on = true;
    fut_post(&t->go);
    fut_wait(&boot.done);
    g_stats.ticks = g_tick;
    g_stats.sim_ns = now();
    g_stats.cov_blocks = 0;
    for (auto x : g_cov) {
        g_stats.cov_blocks += x != 0 ? 1 : 0;
    }
}

//! Check if clasp's own signal handler crashed.
//!
//! Its handler for signals is not async-signal-safe (it finishes the step and
//! gathers statistics that might just be under construction).
bool handler_crashed(void const *addr) {
    if (g_in_handler == 0) {
        return false;
    }
    Dl_info own{};
    Dl_info other{};
    return dladdr(reinterpret_cast<void const *>(&handler_crashed), &own) != 0 &&
           (dladdr(addr, &other) == 0 || own.dli_fbase != other.dli_fbase);
}

static bool in_clingo(void const *addr) {
    struct Range {
        uintptr_t lo = 0, hi = 0;
        Range() {
            dl_iterate_phdr(
                [](dl_phdr_info *i, size_t, void *d) {
                    if (i->dlpi_name != nullptr && strstr(i->dlpi_name, "_clingo") != nullptr) {
                        auto &r = *static_cast<Range *>(d);
                        r.lo = i->dlpi_addr;
                        for (int k = 0; k < i->dlpi_phnum; ++k) {
                            r.hi = std::max<uintptr_t>(r.hi, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
                        }
                        return 1;
                    }
                    return 0;
                },
                this);
        }
    };
    static Range r;
    auto a = reinterpret_cast<uintptr_t>(addr);
    return r.lo <= a && a < r.hi;
}

static bool lib_alloc_fails(size_t n, void const *caller) {
    if (t_self->ctx == Ctx::Lib && t_self->cb != CB_UNDO && g_oom >= 0) {
        // While rewriting programs, clingo.hh (not part of clingcon) ignores failures of
        // clingo_ast_build and has a noexcept move constructor that allocates 8 bytes.
        if (g_oom_rewrite && (n <= sizeof(void *) || in_clingo(caller))) {
            return false;
        }
        if (g_oom-- == 0) {
            g_oom_fired = true;
            ++g_stats.faults[F_OOM];
            if (g_oom_more > 0) {
                --g_oom_more;
                g_oom = 0;
            }
            return true;
        }
    }
    return false;
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ interposition

#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT void *malloc(size_t n) { return heap_alloc(n, g_on ? cur_arena() : A_BOOT); }
EXPORT void free(void *p) { heap_free(p); }
EXPORT void *calloc(size_t a, size_t b) {
    size_t n = a * b;
    if (a != 0 && n / a != b) {
        return nullptr;
    }
    void *p = malloc(n);
    if (p != nullptr) {
        memset(p, 0, n);
    }
    return p;
}
EXPORT void *realloc(void *p, size_t n) {
    if (p == nullptr) {
        return malloc(n);
    }
    if (n == 0) {
        free(p);
        return nullptr;
    }
    size_t o = heap_usable(p);
    void *q = malloc(n);
    if (q == nullptr) {
        return nullptr;
    }
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
EXPORT void *memalign(size_t al, size_t n) {
    if (al <= 16) {
        return malloc(n);
    }
    auto a = reinterpret_cast<uintptr_t>(malloc(n + al + 16));
    if (a == 0) {
        return nullptr;
    }
    auto b = (a + al - 1) / al * al;
    if (b != a) {
        auto *hd = reinterpret_cast<Header *>(b - sizeof(Header));
        hd->magic = MAGIC_USED;
        hd->cls = 0;
        hd->off = static_cast<uint16_t>((b - a) / 16);
        hd->size = n;
    }
    return reinterpret_cast<void *>(b);
}
EXPORT int posix_memalign(void **p, size_t al, size_t n) {
    *p = memalign(al, n);
    return *p != nullptr ? 0 : ENOMEM;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT void *valloc(size_t n) { return memalign(4096, n); }
EXPORT size_t malloc_usable_size(void *p) { return p != nullptr ? heap_usable(p) : 0; }

static void *op_new(size_t n, void const *caller) {
    if (LIKELY(yieldable() && t_arena_override < 0)) {
        ++g_stats.allocs;
        if (UNLIKELY(lib_alloc_fails(n, caller))) {
            return nullptr;
        }
        if (g_cfg.alloc_num != 0) {
            yield(Y_ALLOC);
        } else {
            ++g_tick;
            if (UNLIKELY(g_tick >= g_next)) {
                yield(Y_ALLOC);
            }
        }
    }
    return malloc(n);
}
void *operator new(size_t n) {
    void *p = op_new(n, __builtin_return_address(0));
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void *operator new[](size_t n) {
    void *p = op_new(n, __builtin_return_address(0));
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void *operator new(size_t n, std::nothrow_t const &) noexcept { return op_new(n, __builtin_return_address(0)); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return op_new(n, __builtin_return_address(0)); }
static void op_delete(void *p, void const *caller) {
    if (UNLIKELY(g_race) && p != nullptr && yieldable() && t_self->ctx == Ctx::Lib) {
        race_free(p, heap_usable(p), reinterpret_cast<uintptr_t>(caller));
    }
    free(p);
}
void operator delete(void *p) noexcept {
    op_delete(p, __builtin_return_address(0));
}
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept {
    op_delete(p, __builtin_return_address(0));
}
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { free(p); }

// basic blocks of the library (compiled with -fsanitize-coverage=trace-pc)
EXPORT void __sanitizer_cov_trace_pc() {
    if (LIKELY(g_on)) {
        ++g_stats.blocks;
        auto pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
        extern char __executable_start;
        auto h = (pc - reinterpret_cast<uintptr_t>(&__executable_start)) * 0x9E3779B97F4A7C15ULL >> 48;
        g_cov[h] = 1;
        if (UNLIKELY(++g_tick >= g_next)) {
            --g_tick;
            if (yieldable()) {
                yield(Y_BLOCK);
            } else {
                ++g_tick;
            }
        }
    }
}

// ---- threads

EXPORT int pthread_create(pthread_t *out, pthread_attr_t const *attr, void *(*fn)(void *), void *arg) {
    if (!active()) {
        static auto rc = real<int (*)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *)>("pthread_create");
        return rc(out, attr, fn, arg);
    }
    auto *t = new_thread();
    t->fn = fn;
    t->arg = arg;
    if (attr != nullptr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    int r = start_thread(t);
    if (r != 0) {
        t->state = DONE;
        return r;
    }
    *out = t->real;
    hmix(0xC0 + t->id);
    if (yieldable()) {
        yield(Y_CREATE);
    }
    return 0;
}

EXPORT int pthread_join(pthread_t th, void **ret) {
    static auto rj = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!active()) {
        return rj(th, ret);
    }
    Thread *t = nullptr;
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i]->real == th && !(g_thr[i]->state == DONE && g_thr[i]->obj == reinterpret_cast<void *>(1))) {
            t = g_thr[i];
        }
    }
    if (t == nullptr) {
        return ESRCH;
    }
    while (t->state != DONE) {
        t_self->state = W_JOIN;
        t_self->obj = t;
        yield(Y_JOIN, true);
    }
    t->obj = reinterpret_cast<void *>(1);
    if (UNLIKELY(g_race)) {
        race_join(t->id);
    }
    return rj(th, ret);
}

EXPORT int pthread_detach(pthread_t th) {
    static auto rd = real<int (*)(pthread_t)>("pthread_detach");
    return rd(th);
}

// ---- mutexes: state is kept in the mutex itself

EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active()) {
        ++m->__data.__count;
        return 0;
    }
    auto *me = t_self;
    if (yieldable()) {
        yield(Y_LOCK);
    }
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    while (m->__data.__lock != 0) {
        if (m->__data.__owner == me->id + 1) {
            if (rec) {
                ++m->__data.__count;
                return 0;
            }
            fatal("deadlock", "thread locks a mutex it already holds");
        }
        me->state = W_MUTEX;
        me->obj = m;
        yield(Y_LOCK, true);
    }
    m->__data.__lock = 1;
    m->__data.__owner = me->id + 1;
    m->__data.__count = 1;
    ++me->locks;
    if (UNLIKELY(g_race)) {
        race_acquire(m);
    }
    return 0;
}

EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active()) {
        return 0;
    }
    auto *me = t_self;
    if (yieldable()) {
        yield(Y_LOCK);
    }
    if (m->__data.__lock != 0) {
        if (m->__data.__owner == me->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            ++m->__data.__count;
            return 0;
        }
        return EBUSY;
    }
    m->__data.__lock = 1;
    m->__data.__owner = me->id + 1;
    m->__data.__count = 1;
    ++me->locks;
    if (UNLIKELY(g_race)) {
        race_acquire(m);
    }
    return 0;
}

static void mutex_release(pthread_mutex_t *m) {
    if (UNLIKELY(g_race)) {
        race_release(m);
    }
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    m->__data.__count = 0;
    --t_self->locks;
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i]->state == W_MUTEX && g_thr[i]->obj == m) {
            wake(g_thr[i], false);
        }
    }
}

EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active()) {
        return 0;
    }
    if (m->__data.__lock == 0) {
        return 0; // locked before the simulation started
    }
    if (m->__data.__count > 1) {
        --m->__data.__count;
        return 0;
    }
    mutex_release(m);
    // clingo's intern tables read the slot found after releasing their (static) mutexes; this race is not clingcon's
    if (yieldable() && !in_clingo(m)) {
        yield(Y_UNLOCK);
    }
    return 0;
}

EXPORT int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

// ---- condition variables

static int cond_wait(void *c, pthread_mutex_t *m, bool timed, uint64_t deadline) {
    if (!active()) {
        abort();
    }
    auto *me = t_self;
    auto cnt = m->__data.__count;
    mutex_release(m);
    me->state = W_COND;
    me->obj = c;
    me->timed = timed;
    me->deadline = deadline;
    me->timedout = false;
    yield(Y_COND, true);
    bool to = me->timedout && timed;
    while (m->__data.__lock != 0) {
        me->state = W_MUTEX;
        me->obj = m;
        yield(Y_LOCK, true);
    }
    m->__data.__lock = 1;
    m->__data.__owner = me->id + 1;
    m->__data.__count = cnt;
    ++me->locks;
    if (UNLIKELY(g_race)) {
        race_acquire(m);
    }
    return to ? ETIMEDOUT : 0;
}

static uint64_t const RT_BASE = 1700000000ULL * 1000000000ULL;
static uint64_t const MONO_BASE = 1000ULL * 1000000000ULL;

static uint64_t to_deadline(timespec const *ts, clockid_t clk) {
    uint64_t t = static_cast<uint64_t>(ts->tv_sec) * 1000000000ULL + static_cast<uint64_t>(ts->tv_nsec);
    uint64_t base = clk == CLOCK_REALTIME ? RT_BASE + g_rt_offset : MONO_BASE;
    return t > base ? t - base : 0;
}

EXPORT int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *) { return 0; }
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false, 0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *ts) {
    return cond_wait(c, m, true, to_deadline(ts, CLOCK_REALTIME));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, timespec const *ts) {
    return cond_wait(c, m, true, to_deadline(ts, clk));
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
    if (!active()) {
        return 0;
    }
    Thread *w[MAX_THREADS];
    int n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i]->state == W_COND && g_thr[i]->obj == c) {
            w[n++] = g_thr[i];
        }
    }
    if (n > 0) {
        int k = 0;
        ++g_tick;
        if (g_cfg.explicit_decisions) {
            while (g_cur_c < g_cfg.decisions.size() &&
                   (g_cfg.decisions[g_cur_c].kind != 'c' || g_cfg.decisions[g_cur_c].tick < g_tick)) {
                ++g_cur_c;
            }
            if (g_cur_c < g_cfg.decisions.size() && g_cfg.decisions[g_cur_c].tick == g_tick) {
                k = static_cast<int>(g_cfg.decisions[g_cur_c++].value) % n;
            }
        } else if (g_cfg.strategy != 0 && n > 1) {
            k = static_cast<int>(g_srng.below(n));
            if (k != 0) {
                int oa = t_arena_override;
                t_arena_override = A_HARNESS;
                record(g_tick, 'c', k);
                t_arena_override = oa;
            }
        }
        wake(w[k], false);
    }
    if (yieldable()) {
        yield(Y_COND);
    }
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active()) {
        return 0;
    }
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i]->state == W_COND && g_thr[i]->obj == c) {
            wake(g_thr[i], false);
        }
    }
    if (yieldable()) {
        yield(Y_COND);
    }
    return 0;
}

EXPORT int sched_yield() {
    if (!active()) {
        return static_cast<int>(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
    }
    yield(Y_YIELD);
    return 0;
}
EXPORT int nanosleep(timespec const *ts, timespec *) {
    if (active()) {
        sim::sleep_ns(static_cast<uint64_t>(ts->tv_sec) * 1000000000ULL + static_cast<uint64_t>(ts->tv_nsec));
        return 0;
    }
    return static_cast<int>(raw6(SYS_nanosleep, reinterpret_cast<long>(ts), 0, 0, 0, 0, 0));
}
EXPORT int clock_nanosleep(clockid_t clk, int flags, timespec const *ts, timespec *rem) {
    if (active()) {
        if ((flags & TIMER_ABSTIME) != 0) {
            auto d = to_deadline(ts, clk);
            sim::sleep_ns(d > now() ? d - now() : 0);
            return 0;
        }
        return nanosleep(ts, rem);
    }
    return static_cast<int>(-raw6(SYS_clock_nanosleep, clk, flags, reinterpret_cast<long>(ts), reinterpret_cast<long>(rem), 0, 0));
}
EXPORT int usleep(useconds_t us) {
    timespec ts{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s) {
    timespec ts{static_cast<time_t>(s), 0};
    nanosleep(&ts, nullptr);
    return 0;
}

// libstdc++ uses futexes directly for static-local guards and atomic waits
EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto &x : a) {
        x = va_arg(ap, long);
    }
    va_end(ap);
    if (n == SYS_futex && active()) {
        int op = static_cast<int>(a[1]) & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            yield(Y_YIELD);
            return 0;
        }
        return 0;
    }
    long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = static_cast<int>(-r);
        return -1;
    }
    return r;
}

// ---- clocks

static uint64_t clock_read() {
    ++g_stats.clock_reads;
    ++g_tick;
    if (g_cfg.explicit_decisions) {
        while (g_cur_j < g_cfg.decisions.size() &&
               (g_cfg.decisions[g_cur_j].kind != 'j' || g_cfg.decisions[g_cur_j].tick < g_tick)) {
            ++g_cur_j;
        }
        if (g_cur_j < g_cfg.decisions.size() && g_cfg.decisions[g_cur_j].tick == g_tick) {
            auto v = g_cfg.decisions[g_cur_j++].value;
            g_extra_ns += static_cast<uint64_t>(v) * 1000000ULL;
            g_rt_offset -= v * 3000000;
            ++g_stats.faults[F_CLOCKJUMP];
        }
    } else if (g_cfg.clockjump != 0 && g_srng.below(1000) < g_cfg.clockjump) {
        // monotonic clocks only leap forward; the wall clock is also set back
        uint64_t ms = 1 + g_srng.below(1ULL << (1 + g_srng.below(20)));
        g_extra_ns += ms * 1000000ULL;
        g_rt_offset -= static_cast<int64_t>(ms) * 3000000;
        ++g_stats.faults[F_CLOCKJUMP];
        int oa = t_arena_override;
        t_arena_override = A_HARNESS;
        record(g_tick, 'j', static_cast<int64_t>(ms));
        t_arena_override = oa;
    }
    return now();
}

EXPORT int clock_gettime(clockid_t clk, timespec *ts) {
    if (!active()) {
        long r = raw6(SYS_clock_gettime, clk, reinterpret_cast<long>(ts), 0, 0, 0, 0);
        return r < 0 ? -1 : 0;
    }
    uint64_t t = t_self->ctx == Ctx::Harness ? now() : clock_read();
    if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) {
        t += RT_BASE + g_rt_offset;
    } else if (clk == CLOCK_MONOTONIC || clk == CLOCK_MONOTONIC_RAW || clk == CLOCK_MONOTONIC_COARSE || clk == CLOCK_BOOTTIME) {
        t += MONO_BASE;
    }
    ts->tv_sec = static_cast<time_t>(t / 1000000000ULL);
    ts->tv_nsec = static_cast<long>(t % 1000000000ULL);
    return 0;
}
EXPORT int gettimeofday(timeval *tv, void *) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t *p) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p != nullptr) {
        *p = ts.tv_sec;
    }
    return ts.tv_sec;
}
EXPORT clock_t clock() {
    timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return static_cast<clock_t>(ts.tv_sec) * CLOCKS_PER_SEC + ts.tv_nsec / 1000;
}
EXPORT int getrusage(int who, rusage *ru) {
    if (!active()) {
        return static_cast<int>(raw6(SYS_getrusage, who, reinterpret_cast<long>(ru), 0, 0, 0, 0));
    }
    memset(ru, 0, sizeof(*ru));
    uint64_t t = clock_read();
    ru->ru_utime.tv_sec = static_cast<time_t>(t / 1000000000ULL);
    ru->ru_utime.tv_usec = static_cast<long>(t % 1000000000ULL / 1000);
    return 0;
}
EXPORT clock_t times(tms *b) {
    uint64_t t = active() ? clock_read() : 0;
    memset(b, 0, sizeof(*b));
    b->tms_utime = static_cast<clock_t>(t / 10000000ULL);
    return static_cast<clock_t>(t / 10000000ULL);
}
EXPORT int get_nprocs() { return 8; }
EXPORT int get_nprocs_conf() { return 8; }
EXPORT uint32_t arc4random() { return 4; }

// ---- signals (only virtual ones reach the simulated program)

EXPORT sighandler_t signal(int sig, sighandler_t h) {
    if (g_on && g_virtual_signals && sig > 0 && sig < 65) {
        auto *o = g_sig[sig];
        g_sig[sig] = h;
        return o;
    }
    struct sigaction sa {};
    struct sigaction old {};
    sa.sa_handler = h;
    sa.sa_flags = SA_RESTART;
    sigaction(sig, &sa, &old);
    return old.sa_handler;
}
EXPORT void _exit(int code) {
    if (g_on && g_exit_hook != nullptr) {
        auto *hook = g_exit_hook;
        g_exit_hook = nullptr;
        hook(code);
    }
    for (;;) {
        raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    }
}
EXPORT unsigned alarm(unsigned s) {
    if (g_on) {
        auto o = g_alarm;
        g_alarm = s == 0 ? 0 : now() + s * 1000000000ULL;
        return o > now() ? static_cast<unsigned>((o - now()) / 1000000000ULL) : 0;
    }
    return static_cast<unsigned>(raw6(SYS_alarm, s, 0, 0, 0, 0, 0));
}
EXPORT int raise(int sig) {
    if (g_on && g_virtual_signals && sig > 0 && sig < 65 && sig != SIGABRT && g_sig[sig] != nullptr) {
        deliver_signal(sig);
        return 0;
    }
    return static_cast<int>(raw6(SYS_tgkill, getpid(), raw6(SYS_gettid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0));
}
