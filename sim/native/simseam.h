// Force-included (-include) in front of every C++ source of the simulator build.  Nothing in /repo changes.
// It replaces the two stateful std:: randomness classes the engine keeps inside its objects by stateless ones
// that draw from the simulator's single random stream, so that one seed decides every draw and two replicas of a
// tile see the same draws from the same stream position.
#pragma once
#include <random>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <memory>

extern "C" int sim_rand31(void);
extern "C" int sim_engine_mode(void);

namespace std {
// An ordinary minstd_rand0, except that in stream mode the engines that live inside objects (on the heap) follow the
// simulator's one stream; the temporary engines on the stack, which only expand a seed into a table, stay seeded.
class sim_random_engine {
public:
  typedef uint_fast32_t result_type;
  sim_random_engine() : inner_() {}
  explicit sim_random_engine(result_type s) : inner_(s) {}
  static constexpr result_type min() { return minstd_rand0::min(); }
  static constexpr result_type max() { return minstd_rand0::max(); }
  result_type operator()() {
    if (sim_engine_mode() == 2) {
      char here;
      ptrdiff_t d = (char *)this - &here;
      if (d > (1 << 20) || d < -(1 << 20)) {
        return (result_type)((unsigned)sim_rand31() % 2147483645u) + 1u;
      }
    }
    return inner_();
  }
  void seed(result_type s = 1u) { inner_.seed(s); }
  void discard(unsigned long long n) { while (n--) (*this)(); }
private:
  minstd_rand0 inner_;
};

// Box-Muller without the cached second value.
template <typename R = double> class sim_normal_distribution {
public:
  typedef R result_type;
  sim_normal_distribution() {}
  explicit sim_normal_distribution(R m, R s = R(1)) : m_(m), s_(s) {}
  void reset() {}
  R mean() const { return m_; }
  R stddev() const { return s_; }
  template <typename G> R operator()(G &g) {
    double span = (double)(G::max() - G::min()) + 1.0;
    double u = ((double)(g() - G::min()) + 0.5) / span;
    double v = ((double)(g() - G::min()) + 0.5) / span;
    return m_ + s_ * (R)(std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v));
  }
private:
  R m_ = R(0);
  R s_ = R(1);
};
} // namespace std

#define default_random_engine sim_random_engine
#define normal_distribution sim_normal_distribution
