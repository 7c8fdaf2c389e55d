// The seam's one random stream and virtual clock.  rand/srand/system_clock::now of the C++ engine are bound here
// at link time (--wrap), so only the engine is affected: Python, torch and libc keep theirs.
#include <cstdint>
#include <chrono>
static uint64_t state_ = 0x9e3779b97f4a7c15ULL;
static int honour_srand_ = 0;
static int mode_ = 0;
static long long clock_ns_ = 1700000000000000000LL;
static long long clock_step_ = 0;
static unsigned long long n_rand_ = 0, n_srand_ = 0, n_clock_ = 0;
static inline uint64_t next_() {
  uint64_t z = (state_ += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT int sim_rand31(void) { return (int)(next_() >> 33); }
EXPORT int sim_engine_mode(void) { return mode_; }
EXPORT int __wrap_rand(void) { n_rand_++; return sim_rand31(); }
EXPORT void __wrap_srand(unsigned s) { n_srand_++; if (honour_srand_) state_ = 0x51ed270b1234567ULL ^ s; }
EXPORT long long sim_now_impl(void) asm("__wrap__ZNSt6chrono3_V212system_clock3nowEv");
EXPORT long long sim_now_impl(void) { n_clock_++; clock_ns_ += clock_step_; return clock_ns_; }
EXPORT void sim_seed(unsigned long long s) { state_ = s * 0x9e3779b97f4a7c15ULL + 0x1234567ULL; }
EXPORT void sim_set_mode(int m) { mode_ = m; }
EXPORT void sim_honour_srand(int h) { honour_srand_ = h; }
EXPORT void sim_set_clock(long long ns, long long step) { clock_ns_ = ns; clock_step_ = step; }
EXPORT unsigned long long sim_counter(int i) { return i == 0 ? n_rand_ : i == 1 ? n_srand_ : n_clock_; }
EXPORT unsigned long long sim_get_state(void) { return state_; }
EXPORT void sim_set_state(unsigned long long s) { state_ = s; }
