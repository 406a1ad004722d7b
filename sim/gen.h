// Workload generator: seed -> case, per property profile.
#ifndef SIM_GEN_H
#define SIM_GEN_H
#include "model.h"

namespace sim {

//! Generate the case for the given profile (property id in lower case) and seed.
Case generate(std::string const &profile, uint64_t seed);

//! Draw a schedule configuration.
SchedConfig gen_sched(Rng &r, bool parallel);

} // namespace sim
#endif
