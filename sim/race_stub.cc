#include <cstddef>
#include <cstdint>
namespace sim {
bool g_race = false;
uint64_t races_checked() { return 0; }
void race_solve_begin() {}
void race_solve_end() {}
void race_acquire(void const *) {}
void race_release(void const *) {}
void race_create(int) {}
void race_join(int) {}
void race_alloc(void *, size_t) {}
void race_free(void *, size_t, uintptr_t) {}
} // namespace sim
