// Happens-before race detector: replaces the runtime behind -fsanitize=thread.
//
// Every plain and atomic access of clingcon's code is compared with the last
// accesses to the same bytes. Two accesses race if they come from different
// simulated threads, one is a write, not both are atomic, and they are not
// ordered by the synchronisation operations (mutexes, condition variables,
// thread creation, joins, acquire/release atomics) of the simulated execution.
#include "rt.h"

#include <cstdio>
#include <cstring>
#include <link.h>
#include <sys/mman.h>

namespace sim {

bool g_race = true;

namespace {

constexpr int T = 80;
constexpr uintptr_t HEAP_LO = 0x100100000000ULL, HEAP_HI = 0x100200000000ULL; // arena of the simulated program
constexpr int CELLS = 4;

struct Cell {
    uint32_t clock;
    uint8_t tid; // + 1
    uint8_t mask;
    uint8_t flags; // 1: write, 2: atomic, 4: free
    uint8_t cb;
    uint64_t pc;
};
struct Slot {
    Cell c[CELLS];
};
struct VC {
    uint32_t c[T];
};
struct Sync {
    uintptr_t key;
    VC vc;
};
constexpr size_t SYNCS = 1 << 14;

Slot *g_heap_shadow = nullptr;
Slot *g_glob_shadow = nullptr;
uintptr_t g_glob_lo = 0, g_glob_hi = 0;
VC *g_vc = nullptr;
Sync *g_sync = nullptr;
uint64_t g_checked = 0;
bool g_reporting = false;
extern "C" char __executable_start, _end, __data_start;

template <class X> X *map(size_t n) {
    void *p = mmap(nullptr, n * sizeof(X), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        fatal("harness", "cannot map shadow memory");
    }
    return static_cast<X *>(p);
}

void setup() {
    g_heap_shadow = map<Slot>((HEAP_HI - HEAP_LO) / 8);
    g_glob_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t(7);
    g_glob_hi = reinterpret_cast<uintptr_t>(&_end);
    g_glob_shadow = map<Slot>((g_glob_hi - g_glob_lo) / 8 + 1);
    g_sync = map<Sync>(SYNCS);
    auto *vc = map<VC>(T);
    for (int i = 0; i < T; ++i) {
        vc[i].c[i] = 1;
    }
    g_vc = vc;
}

inline Slot *shadow(uintptr_t a) {
    if (a >= HEAP_LO && a < HEAP_HI) {
        return g_heap_shadow + (a - HEAP_LO) / 8;
    }
    if (a >= g_glob_lo && a < g_glob_hi) {
        return g_glob_shadow + (a - g_glob_lo) / 8;
    }
    return nullptr;
}

Sync *sync_of(void const *obj, bool create) {
    auto key = reinterpret_cast<uintptr_t>(obj);
    size_t i = (key * 0x9E3779B97F4A7C15ULL) >> 50;
    for (size_t k = 0; k < SYNCS; ++k, i = (i + 1) % SYNCS) {
        if (g_sync[i].key == key) {
            return &g_sync[i];
        }
        if (g_sync[i].key == 0) {
            if (!create) {
                return nullptr;
            }
            g_sync[i].key = key;
            return &g_sync[i];
        }
    }
    fatal("harness", "too many synchronisation objects");
}

void join_vc(VC &a, VC const &b) {
    for (int i = 0; i < T; ++i) {
        if (b.c[i] > a.c[i]) {
            a.c[i] = b.c[i];
        }
    }
}

char const *const cbn[] = {"none", "init", "propagate", "undo", "check", "decide", "model", "statistics", "api"};

[[noreturn]] void report(Cell const &old, int tid, uint8_t flags, uintptr_t pc, bool glob) {
    g_reporting = true;
    auto base = reinterpret_cast<uintptr_t>(&__executable_start);
    auto name = [](uint8_t f) {
        return (f & 4) != 0 ? "free" : (f & 3) == 3 ? "atomic write" : (f & 3) == 2 ? "atomic read" : (f & 1) != 0 ? "write" : "read";
    };
    char buf[240];
    snprintf(buf, sizeof(buf), "data race on %s: %s in %s callback by thread %d at @%lx@ and earlier %s in %s callback by thread %d at @%lx@",
             glob ? "global memory" : "heap memory", name(flags), cbn[cb()], tid, static_cast<unsigned long>(pc - base - 1), name(old.flags),
             cbn[old.cb % CB_COUNT], old.tid - 1, static_cast<unsigned long>(old.pc - base - 1));
    fatal("race", buf);
}

void access(uintptr_t a, size_t n, uint8_t flags, uintptr_t pc) {
    int tid = self_id();
    if (!g_on || tid < 0 || g_vc == nullptr || g_reporting) {
        return;
    }
    ++g_checked;
    while (n > 0) {
        size_t off = a & 7;
        size_t len = n < 8 - off ? n : 8 - off;
        Slot *s = shadow(a);
        if (s == nullptr) {
            return;
        }
        auto mask = static_cast<uint8_t>(((1U << len) - 1) << off);
        Cell *put = nullptr;
        for (auto &c : s->c) {
            if (c.tid == 0) {
                if (put == nullptr || put->tid != 0) {
                    put = &c;
                }
                continue;
            }
            if ((c.mask & mask) == 0) {
                continue;
            }
            bool ordered = c.tid == tid + 1 || c.clock <= g_vc[tid].c[c.tid - 1];
            if (!ordered && ((c.flags | flags) & 1) != 0 && (c.flags & flags & 2) == 0) {
                report(c, tid, flags, pc, a < HEAP_LO || a >= HEAP_HI);
            }
            // superseded by this access?
            if (ordered && c.mask == (c.mask & mask) && ((flags & 1) != 0 || (c.flags & 1) == 0) && put == nullptr) {
                put = &c;
            }
        }
        if (put == nullptr) {
            put = &s->c[(tick() ^ (a >> 3)) % CELLS];
        }
        *put = Cell{g_vc[tid].c[tid], static_cast<uint8_t>(tid + 1), mask, flags, static_cast<uint8_t>(cb()), pc};
        a += len;
        n -= len;
    }
}

} // namespace

uint64_t races_checked() { return g_checked; }
void race_solve_begin() {}
void race_solve_end() {}

void race_acquire(void const *obj) {
    if (g_vc == nullptr) {
        return;
    }
    if (auto *s = sync_of(obj, false)) {
        join_vc(g_vc[self_id()], s->vc);
    }
}
void race_release(void const *obj) {
    if (g_vc == nullptr) {
        return;
    }
    int me = self_id();
    join_vc(sync_of(obj, true)->vc, g_vc[me]);
    ++g_vc[me].c[me];
}
void race_create(int child) {
    if (g_vc == nullptr) {
        setup();
    }
    int me = self_id();
    if (me < 0) {
        return;
    }
    join_vc(g_vc[child], g_vc[me]);
    ++g_vc[me].c[me];
}
void race_join(int child) {
    int me = self_id();
    join_vc(g_vc[me], g_vc[child]);
}
void race_alloc(void *p, size_t n) {
    auto a = reinterpret_cast<uintptr_t>(p);
    if (g_vc != nullptr && a >= HEAP_LO && a < HEAP_HI) {
        memset(static_cast<void *>(shadow(a)), 0, (n + 7) / 8 * sizeof(Slot));
    }
}
void race_free(void *p, size_t n, uintptr_t pc) {
    auto a = reinterpret_cast<uintptr_t>(p);
    if (g_vc != nullptr && a >= HEAP_LO && a < HEAP_HI) {
        access(a, n, 1 | 4, pc);
    }
}

} // namespace sim

using namespace sim;

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define ADDR(p) reinterpret_cast<uintptr_t>(p)
#define X extern "C" __attribute__((visibility("default")))

X void __tsan_init() {}
X void __tsan_func_entry(void *) {}
X void __tsan_func_exit() {}
X void __tsan_read1(void *p) { access(ADDR(p), 1, 0, PC); }
X void __tsan_read2(void *p) { access(ADDR(p), 2, 0, PC); }
X void __tsan_read4(void *p) { access(ADDR(p), 4, 0, PC); }
X void __tsan_read8(void *p) { access(ADDR(p), 8, 0, PC); }
X void __tsan_read16(void *p) { access(ADDR(p), 16, 0, PC); }
X void __tsan_write1(void *p) { access(ADDR(p), 1, 1, PC); }
X void __tsan_write2(void *p) { access(ADDR(p), 2, 1, PC); }
X void __tsan_write4(void *p) { access(ADDR(p), 4, 1, PC); }
X void __tsan_write8(void *p) { access(ADDR(p), 8, 1, PC); }
X void __tsan_write16(void *p) { access(ADDR(p), 16, 1, PC); }
X void __tsan_unaligned_read2(void *p) { access(ADDR(p), 2, 0, PC); }
X void __tsan_unaligned_read4(void *p) { access(ADDR(p), 4, 0, PC); }
X void __tsan_unaligned_read8(void *p) { access(ADDR(p), 8, 0, PC); }
X void __tsan_unaligned_read16(void *p) { access(ADDR(p), 16, 0, PC); }
X void __tsan_unaligned_write2(void *p) { access(ADDR(p), 2, 1, PC); }
X void __tsan_unaligned_write4(void *p) { access(ADDR(p), 4, 1, PC); }
X void __tsan_unaligned_write8(void *p) { access(ADDR(p), 8, 1, PC); }
X void __tsan_unaligned_write16(void *p) { access(ADDR(p), 16, 1, PC); }
X void __tsan_volatile_read1(void *p) { access(ADDR(p), 1, 0, PC); }
X void __tsan_volatile_read2(void *p) { access(ADDR(p), 2, 0, PC); }
X void __tsan_volatile_read4(void *p) { access(ADDR(p), 4, 0, PC); }
X void __tsan_volatile_read8(void *p) { access(ADDR(p), 8, 0, PC); }
X void __tsan_volatile_write1(void *p) { access(ADDR(p), 1, 1, PC); }
X void __tsan_volatile_write2(void *p) { access(ADDR(p), 2, 1, PC); }
X void __tsan_volatile_write4(void *p) { access(ADDR(p), 4, 1, PC); }
X void __tsan_volatile_write8(void *p) { access(ADDR(p), 8, 1, PC); }
X void __tsan_read_range(void *p, size_t n) { access(ADDR(p), n, 0, PC); }
X void __tsan_write_range(void *p, size_t n) { access(ADDR(p), n, 1, PC); }
X void __tsan_vptr_update(void **p, void *v) {
    if (*p != v) {
        access(ADDR(p), 8, 1, PC);
    }
}
X void __tsan_vptr_read(void **p) { access(ADDR(p), 8, 0, PC); }

namespace {
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void before(void const volatile *p, size_t n, bool write, int mo, uintptr_t pc) {
    if (!g_on || self_id() < 0) {
        return;
    }
    auto *q = const_cast<void const *>(p);
    // atomic operations are points at which threads can be switched
    point(Y_YIELD == Y_BLOCK ? Y_BLOCK : Y_API, 0xA7);
    access(ADDR(q), n, static_cast<uint8_t>(2 | (write ? 1 : 0)), pc);
    if (acq(mo)) {
        race_acquire(q);
    }
    if (write && rel(mo)) {
        race_release(q);
    }
}
} // namespace

#define ATOMICS(N, Ty)                                                                                                 \
    X Ty __tsan_atomic##N##_load(Ty const volatile *a, int mo) {                                                       \
        before(a, sizeof(Ty), false, mo, PC);                                                                          \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    X void __tsan_atomic##N##_store(Ty volatile *a, Ty v, int mo) {                                                    \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    X Ty __tsan_atomic##N##_exchange(Ty volatile *a, Ty v, int mo) {                                                   \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    X Ty __tsan_atomic##N##_fetch_add(Ty volatile *a, Ty v, int mo) {                                                  \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X Ty __tsan_atomic##N##_fetch_sub(Ty volatile *a, Ty v, int mo) {                                                  \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X Ty __tsan_atomic##N##_fetch_and(Ty volatile *a, Ty v, int mo) {                                                  \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X Ty __tsan_atomic##N##_fetch_or(Ty volatile *a, Ty v, int mo) {                                                   \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    X Ty __tsan_atomic##N##_fetch_xor(Ty volatile *a, Ty v, int mo) {                                                  \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    X int __tsan_atomic##N##_compare_exchange_strong(Ty volatile *a, Ty *c, Ty v, int mo, int) {                       \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0;                \
    }                                                                                                                  \
    X int __tsan_atomic##N##_compare_exchange_weak(Ty volatile *a, Ty *c, Ty v, int mo, int) {                         \
        before(a, sizeof(Ty), true, mo, PC);                                                                           \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0;                \
    }

ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
X void __tsan_atomic_thread_fence(int) {}
X void __tsan_atomic_signal_fence(int) {}

// guards of function-local statics are completed by (uninstrumented) libstdc++
X void __real___cxa_guard_release(void *g);
X void __wrap___cxa_guard_release(void *g) {
    if (g_on && self_id() >= 0) {
        race_release(g);
    }
    __real___cxa_guard_release(g);
}

X int __real___cxa_guard_acquire(void *g);
X int __wrap___cxa_guard_acquire(void *g) {
    int r = __real___cxa_guard_acquire(g);
    if (r == 0 && g_on && self_id() >= 0) {
        race_acquire(g);
    }
    return r;
}

// bulk operations called by clingcon
X void *__real_memcpy(void *d, void const *s, size_t n);
X void *__real_memmove(void *d, void const *s, size_t n);
X void *__real_memset(void *d, int c, size_t n);
X void *__wrap_memcpy(void *d, void const *s, size_t n) {
    if (g_on && ctx() == Ctx::Lib) {
        access(ADDR(s), n, 0, PC);
        access(ADDR(d), n, 1, PC);
    }
    return __real_memcpy(d, s, n);
}
X void *__wrap_memmove(void *d, void const *s, size_t n) {
    if (g_on && ctx() == Ctx::Lib) {
        access(ADDR(s), n, 0, PC);
        access(ADDR(d), n, 1, PC);
    }
    return __real_memmove(d, s, n);
}
X void *__wrap_memset(void *d, int c, size_t n) {
    if (g_on && ctx() == Ctx::Lib) {
        access(ADDR(d), n, 1, PC);
    }
    return __real_memset(d, c, n);
}
