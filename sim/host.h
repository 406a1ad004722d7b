// The simulated host: drives real clingcon inside real clingo according to a
// case and judges every answer against the reference.
#ifndef SIM_HOST_H
#define SIM_HOST_H

#include "model.h"

namespace sim {

enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INCONCLUSIVE = 3 };

constexpr size_t COV_BYTES = 8192;
constexpr size_t MAX_DEC = 200000;

//! Defects that were found, are recorded in known_findings.txt, and cannot be
//! repaired with a small change.
enum Known { K_STALE_COST, K_COUNT };
extern char const *const known_names[K_COUNT];
//! Whether a finding is recorded (otherwise it is reported as a violation).
extern bool g_known[K_COUNT];

struct Result {
    int status;
    char cls[40];
    char msg[4000];
    Stats stats;
    uint64_t digest;          // everything observable: models, order, results, errors
    uint64_t prog_digest[8];  // per program: sequence of models and results
    uint64_t models, solves, exhausted, interrupted, errors, checked_sets, checked_models, optima, sat_runs;
    uint64_t prompt_max;      // steps from interrupt to end of the solve call
    uint64_t races_checked;
    uint64_t traffic_checks;  // statistics compared with the traffic at the interface
    uint64_t known[K_COUNT];  // occurrences of recorded findings
    uint64_t n_dec;
    Decision dec[MAX_DEC];
    uint8_t cov[COV_BYTES];
};

extern Result *g_result;

//! Execute the case (inside a fresh process). Only returns if the run was completed.
void execute(Case const &c, Result *res);

//! Violation classes relevant for a profile.
bool class_enabled(std::string const &profile, std::string const &cls);

} // namespace sim
#endif
