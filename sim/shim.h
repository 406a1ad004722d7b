// Seam between clingcon and clingo: guards around every clingo API call and
// wrapped propagator callbacks with contract checks.
#ifndef SIM_SHIM_H
#define SIM_SHIM_H

#include "rt.h"
#include <clingo.h>

namespace sim {

//! Entered around every clingo API call.
struct ApiGuard {
    Ctx old;
    int olda;
    uint32_t id;
    bool heavy;
    ApiGuard(uint32_t id, bool heavy);
    ~ApiGuard();
};

//! Contract violations found so far (empty if none).
extern char g_contract[256];

//! Number of literals and clauses the theory handed to the host.
struct Traffic {
    //! Digest of everything exchanged during search (changes, clauses, literals, watches, decisions).
    uint64_t trace;
    uint64_t init_literals;
    uint64_t init_clauses;
    //! The host rejected a clause or found a conflict during initialization.
    bool conflict;
    uint64_t literals[128];
    //! Decisions that differ from the one of the host.
    uint64_t decided[128];
};

struct PropInfo {
    bool has_decide;
    bool has_undo;
    bool has_check;
    Traffic *traffic;
};
//! Information about the last propagator registered by the current thread.
extern thread_local PropInfo t_last_prop;

//! Options registered by a theory while options are recorded.
struct Option {
    std::string name;
    std::string description;
    bool (*parse)(char const *value, void *data);
    void *data;
    bool *flag;
    bool multi;
};
extern std::vector<Option> *g_options;

//! Optional callback invoked at the beginning of every theory callback.
extern void (*g_on_callback)(Cb kind, uint32_t thread);

} // namespace sim

#define LIB(expr)                                                                                                      \
    [&]() {                                                                                                            \
        struct Scope {                                                                                                 \
            ::sim::Ctx old = ::sim::ctx();                                                                             \
            ::sim::Cb ocb = ::sim::cb();                                                                               \
            int olda = ::sim::t_arena_override;                                                                        \
            Scope() {                                                                                                  \
                ::sim::ctx() = ::sim::Ctx::Lib;                                                                        \
                ::sim::cb() = ::sim::CB_API;                                                                           \
                ::sim::t_arena_override = -1;                                                                          \
                ++::sim::g_stats.callbacks[::sim::CB_API];                                                             \
            }                                                                                                          \
            ~Scope() {                                                                                                 \
                ::sim::settle_oom();                                                                                   \
                ::sim::ctx() = old;                                                                                    \
                ::sim::cb() = ocb;                                                                                     \
                ::sim::t_arena_override = olda;                                                                        \
            }                                                                                                          \
        } scope;                                                                                                       \
        return expr;                                                                                                   \
    }()

#endif
