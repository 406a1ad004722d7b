#include "shim.h"

#include <cstdio>
#include <cstring>

namespace sim {

extern bool g_race;
void race_acquire(void const *obj);
void race_release(void const *obj);

char g_contract[256] = {};
thread_local PropInfo t_last_prop = {};
void (*g_on_callback)(Cb, uint32_t) = nullptr;

namespace {

void contract(char const *msg) {
    if (g_contract[0] == '\0') {
        snprintf(g_contract, sizeof(g_contract), "%s (callback %d, thread %d)", msg, static_cast<int>(cb()), self_id());
    }
}

// per simulated thread: the host asked to stop in the current callback
bool g_stop[128];

bool &stopped() {
    int id = self_id();
    return g_stop[id < 0 ? 127 : id];
}

// the traffic of the propagator whose callback is active
thread_local Traffic *t_traffic = nullptr;

void check_lits(clingo_assignment_t const *ass, clingo_literal_t const *lits, size_t n);

void trace(uint64_t v) {
    if (t_traffic != nullptr) {
        t_traffic->trace = (t_traffic->trace ^ v) * 1099511628211ULL + 0x9E3779B97F4A7C15ULL;
    }
}

void trace(uint64_t kind, clingo_literal_t const *l, size_t n) {
    trace(kind * 1000003 + n);
    for (size_t i = 0; i < n; ++i) {
        trace(static_cast<uint64_t>(static_cast<uint32_t>(l[i])));
    }
}

} // namespace

// The host synchronises with solver threads using atomic operations inside of
// clasp, which are invisible to the race detector.
static char g_to_solver[128], g_to_host[128];

static void edge(bool acquire, char *objs) {
    int id = root_id();
    if (g_race && id >= 0) {
        if (acquire) {
            race_acquire(objs + id);
        } else {
            race_release(objs + id);
        }
    }
}

ApiGuard::ApiGuard(uint32_t id, bool heavy) : old{ctx()}, olda{t_arena_override}, id{id}, heavy{heavy} {
    ctx() = Ctx::Host;
    t_arena_override = -1;
    ++g_stats.api_calls;
    if (heavy && old != Ctx::Lib && cb() == CB_NONE) {
        edge(false, g_to_solver);
    }
    if (heavy && old != Ctx::Harness) {
        point(Y_API, id);
    }
}

ApiGuard::~ApiGuard() {
    if (heavy && old != Ctx::Lib && cb() == CB_NONE) {
        edge(true, g_to_host);
    }
    if (heavy && old != Ctx::Harness) {
        point(Y_API, id ^ 1U);
    }
    ctx() = old;
    t_arena_override = olda;
}

} // namespace sim

using namespace sim;

#define REAL(ret, name, params) extern "C" ret __real_##name params

REAL(bool, clingo_propagate_control_add_clause,
     (clingo_propagate_control_t *, clingo_literal_t const *, size_t, clingo_clause_type_t, bool *));
REAL(bool, clingo_propagate_control_propagate, (clingo_propagate_control_t *, bool *));
REAL(bool, clingo_propagate_control_add_literal, (clingo_propagate_control_t *, clingo_literal_t *));
REAL(bool, clingo_propagate_control_add_watch, (clingo_propagate_control_t *, clingo_literal_t));
REAL(void, clingo_propagate_control_remove_watch, (clingo_propagate_control_t *, clingo_literal_t));
REAL(bool, clingo_propagate_init_add_clause, (clingo_propagate_init_t *, clingo_literal_t const *, size_t, bool *));
REAL(bool, clingo_propagate_init_propagate, (clingo_propagate_init_t *, bool *));
REAL(bool, clingo_propagate_init_add_literal, (clingo_propagate_init_t *, bool, clingo_literal_t *));
REAL(bool, clingo_control_register_propagator, (clingo_control_t *, clingo_propagator_t const *, void *, bool));
extern "C" clingo_assignment_t const *__real_clingo_propagate_control_assignment(clingo_propagate_control_t const *);
extern "C" clingo_assignment_t const *__real_clingo_propagate_init_assignment(clingo_propagate_init_t const *);
extern "C" bool __real_clingo_assignment_has_literal(clingo_assignment_t const *, clingo_literal_t);
extern "C" uint32_t __real_clingo_propagate_control_thread_id(clingo_propagate_control_t const *);
extern "C" int __real_clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *);
extern "C" bool __real_clingo_assignment_truth_value(clingo_assignment_t const *, clingo_literal_t, clingo_truth_value_t *);

namespace sim {
namespace {
void check_lits(clingo_assignment_t const *ass, clingo_literal_t const *lits, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (lits[i] == 0 || !__real_clingo_assignment_has_literal(ass, lits[i] < 0 ? -lits[i] : lits[i])) {
            contract("clause over a literal that does not exist");
        }
    }
}
} // namespace
} // namespace sim

extern "C" bool __wrap_clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *l, size_t n,
                                                           clingo_clause_type_t t, bool *r) {
    ApiGuard g(0x101, true);
    if (stopped()) {
        contract("add_clause after the host reported a conflict");
    }
    if (cb() == CB_UNDO || cb() == CB_DECIDE) {
        contract("add_clause while undoing or deciding");
    }
    check_lits(__real_clingo_propagate_control_assignment(c), l, n);
    for (size_t i = 0; i < n; ++i) {
        mix(static_cast<uint64_t>(static_cast<uint32_t>(l[i])));
    }
    trace(1 + 16 * static_cast<uint64_t>(t), l, n);
    bool ok = __real_clingo_propagate_control_add_clause(c, l, n, t, r);
    if (ok && !*r) {
        stopped() = true;
    }
    mix(ok ? (*r ? 3 : 2) : 1);
    return ok;
}

extern "C" bool __wrap_clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) {
    ApiGuard g(0x102, true);
    if (stopped()) {
        contract("propagate after the host reported a conflict");
    }
    if (cb() == CB_UNDO || cb() == CB_DECIDE) {
        contract("propagate while undoing or deciding");
    }
    bool ok = __real_clingo_propagate_control_propagate(c, r);
    if (ok && !*r) {
        stopped() = true;
    }
    mix(ok ? (*r ? 3 : 2) : 1);
    return ok;
}

extern "C" bool __wrap_clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) {
    ApiGuard g(0x103, true);
    if (stopped()) {
        contract("add_literal after the host reported a conflict");
    }
    if (cb() == CB_UNDO || cb() == CB_DECIDE) {
        contract("add_literal while undoing or deciding");
    }
    bool ok = __real_clingo_propagate_control_add_literal(c, r);
    if (ok && t_traffic != nullptr) {
        ++t_traffic->literals[__real_clingo_propagate_control_thread_id(c) & 127U];
    }
    if (ok) {
        mix(static_cast<uint64_t>(static_cast<uint32_t>(*r)));
        trace(2, r, 1);
    }
    return ok;
}

extern "C" bool __wrap_clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    ApiGuard g(0x104, true);
    if (cb() == CB_UNDO || cb() == CB_DECIDE) {
        contract("add_watch while undoing or deciding");
    }
    trace(3, &l, 1);
    return __real_clingo_propagate_control_add_watch(c, l);
}

extern "C" void __wrap_clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    ApiGuard g(0x105, true);
    __real_clingo_propagate_control_remove_watch(c, l);
}

extern "C" bool __wrap_clingo_propagate_init_add_clause(clingo_propagate_init_t *c, clingo_literal_t const *l, size_t n,
                                                        bool *r) {
    ApiGuard g(0x106, true);
    if (stopped()) {
        contract("init add_clause after the host reported a conflict");
    }
    check_lits(__real_clingo_propagate_init_assignment(c), l, n);
    for (size_t i = 0; i < n; ++i) {
        mix(static_cast<uint64_t>(static_cast<uint32_t>(l[i])));
    }
    trace(4, l, n);
    bool ok = __real_clingo_propagate_init_add_clause(c, l, n, r);
    if (ok && t_traffic != nullptr) {
        ++t_traffic->init_clauses;
        t_traffic->conflict = t_traffic->conflict || !*r;
    }
    if (ok && !*r) {
        stopped() = true;
    }
    return ok;
}

extern "C" bool __wrap_clingo_propagate_init_propagate(clingo_propagate_init_t *c, bool *r) {
    ApiGuard g(0x107, true);
    if (stopped()) {
        contract("init propagate after the host reported a conflict");
    }
    bool ok = __real_clingo_propagate_init_propagate(c, r);
    if (t_traffic != nullptr) {
        t_traffic->conflict = t_traffic->conflict || !ok || !*r;
    }
    if (ok && !*r) {
        stopped() = true;
    }
    return ok;
}

extern "C" bool __wrap_clingo_propagate_init_add_literal(clingo_propagate_init_t *c, bool f, clingo_literal_t *r) {
    ApiGuard g(0x108, true);
    if (stopped()) {
        contract("init add_literal after the host reported a conflict");
    }
    bool ok = __real_clingo_propagate_init_add_literal(c, f, r);
    if (ok && t_traffic != nullptr) {
        ++t_traffic->init_literals;
    }
    return ok;
}

// ---- options of applications

namespace sim {
std::vector<Option> *g_options = nullptr;
}

extern "C" bool __real_clingo_options_add(clingo_options_t *, char const *, char const *, char const *,
                                          bool (*)(char const *, void *), void *, bool, char const *);
extern "C" bool __real_clingo_options_add_flag(clingo_options_t *, char const *, char const *, char const *, bool *);

namespace {
std::string option_name(char const *option) {
    std::string s = option;
    return s.substr(0, s.find(','));
}
} // namespace

extern "C" bool __wrap_clingo_options_add(clingo_options_t *o, char const *group, char const *option, char const *desc,
                                          bool (*parse)(char const *, void *), void *data, bool multi, char const *arg) {
    ApiGuard g(0x111, false);
    if (g_options != nullptr) {
        HarnessScope h;
        g_options->push_back({option_name(option), desc, parse, data, nullptr, multi});
        return true;
    }
    return __real_clingo_options_add(o, group, option, desc, parse, data, multi, arg);
}

extern "C" bool __wrap_clingo_options_add_flag(clingo_options_t *o, char const *group, char const *option, char const *desc,
                                               bool *target) {
    ApiGuard g(0x112, false);
    if (g_options != nullptr) {
        HarnessScope h;
        g_options->push_back({option_name(option), desc, nullptr, nullptr, target, false});
        return true;
    }
    return __real_clingo_options_add_flag(o, group, option, desc, target);
}

// ---- propagator callbacks

namespace {

struct Wrapped {
    clingo_propagator_t p;
    void *data;
    Traffic traffic;
};

struct CallScope {
    Ctx old;
    Cb ocb;
    int olda;
    Traffic *oldt;
    CallScope(Cb c, Wrapped *w) : old{ctx()}, ocb{cb()}, olda{t_arena_override}, oldt{t_traffic} {
        t_traffic = &w->traffic;
        ctx() = Ctx::Host;
        t_arena_override = -1;
        ++g_stats.callbacks[c];
        point(Y_CALLBACK, c);
        edge(true, g_to_solver);
        cb() = c;
        ctx() = Ctx::Lib;
        stopped() = false;
    }
    ~CallScope() {
        stopped() = false;
        settle_oom();
        edge(false, g_to_host);
        ctx() = Ctx::Host;
        cb() = ocb;
        point(Y_CALLBACK, 100);
        t_traffic = oldt;
        ctx() = old;
        t_arena_override = olda;
    }
};

bool w_init(clingo_propagate_init_t *c, void *d) {
    auto *w = static_cast<Wrapped *>(d);
    CallScope s(CB_INIT, w);
    if (g_on_callback != nullptr) {
        g_on_callback(CB_INIT, 0);
    }
    return w->p.init(c, w->data);
}

bool w_propagate(clingo_propagate_control_t *c, clingo_literal_t const *l, size_t n, void *d) {
    auto *w = static_cast<Wrapped *>(d);
    CallScope s(CB_PROPAGATE, w);
    if (g_on_callback != nullptr) {
        g_on_callback(CB_PROPAGATE, __real_clingo_propagate_control_thread_id(c));
    }
    for (size_t i = 0; i < n; ++i) {
        mix(static_cast<uint64_t>(static_cast<uint32_t>(l[i])));
    }
    trace(5, l, n);
    return w->p.propagate(c, l, n, w->data);
}

void w_undo(clingo_propagate_control_t const *c, clingo_literal_t const *l, size_t n, void *d) {
    auto *w = static_cast<Wrapped *>(d);
    CallScope s(CB_UNDO, w);
    if (g_on_callback != nullptr) {
        g_on_callback(CB_UNDO, __real_clingo_propagate_control_thread_id(c));
    }
    w->p.undo(c, l, n, w->data);
}

bool w_check(clingo_propagate_control_t *c, void *d) {
    auto *w = static_cast<Wrapped *>(d);
    CallScope s(CB_CHECK, w);
    if (g_on_callback != nullptr) {
        g_on_callback(CB_CHECK, __real_clingo_propagate_control_thread_id(c));
    }
    return w->p.check(c, w->data);
}

bool w_decide(clingo_id_t t, clingo_assignment_t const *a, clingo_literal_t f, void *d, clingo_literal_t *r) {
    auto *w = static_cast<Wrapped *>(d);
    CallScope s(CB_DECIDE, w);
    if (g_on_callback != nullptr) {
        g_on_callback(CB_DECIDE, t);
    }
    bool ok = w->p.decide(t, a, f, w->data, r);
    if (ok && *r != 0 && *r != f) {
        clingo_truth_value_t v = clingo_truth_value_free;
        if (!__real_clingo_assignment_has_literal(a, *r < 0 ? -*r : *r)) {
            contract("decision on a literal that does not exist");
        } else if (__real_clingo_assignment_truth_value(a, *r, &v) && v != clingo_truth_value_free) {
            contract("decision on an assigned literal");
        }
    }
    if (ok) {
        mix(static_cast<uint64_t>(static_cast<uint32_t>(*r)));
        trace(6, r, 1);
        w->traffic.decided[t & 127U] += *r != f ? 1 : 0;
    }
    return ok;
}

} // namespace

extern "C" bool __wrap_clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *data,
                                                          bool seq) {
    ApiGuard g(0x110, true);
    int oa = t_arena_override;
    t_arena_override = A_HARNESS;
    auto *w = new Wrapped{*p, data, {}};
    t_arena_override = oa;
    t_last_prop = {p->decide != nullptr, p->undo != nullptr, p->check != nullptr, &w->traffic};
    clingo_propagator_t q = {p->init != nullptr ? w_init : nullptr, p->propagate != nullptr ? w_propagate : nullptr,
                             p->undo != nullptr ? w_undo : nullptr, p->check != nullptr ? w_check : nullptr,
                             p->decide != nullptr ? w_decide : nullptr};
    return __real_clingo_control_register_propagator(c, &q, w, seq);
}

// ------------------------------------------------------------------ the command line tool

namespace {
// clasp cannot deal with signals before and after the main function of an application
clingo_application_t g_app;
bool app_main(clingo_control_t *ctl, char const *const *files, size_t n, void *data) {
    sim::accept_signals(true);
    bool ret = g_app.main(ctl, files, n, data);
    sim::accept_signals(false);
    return ret;
}
} // namespace
extern "C" int __real_clingo_main(clingo_application_t *app, char const *const *args, size_t n, void *data);
extern "C" int __wrap_clingo_main(clingo_application_t *app, char const *const *args, size_t n, void *data) {
    sim::ApiGuard g(3286759241U, false);
    g_app = *app;
    auto copy = g_app;
    copy.main = app_main;
    sim::accept_signals(false);
    return __real_clingo_main(&copy, args, n, data);
}
