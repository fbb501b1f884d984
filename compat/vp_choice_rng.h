// Force-included: the generator of random eviction choices becomes one whose
// outputs the harness chooses.
#ifndef VP_CHOICE_RNG_H_
#define VP_CHOICE_RNG_H_
#include <cstdint>
#include <random>
extern "C" uint64_t vp_choice();
namespace std {
class vp_choice_engine {
 public:
  using result_type = uint64_t;
  static constexpr result_type default_seed = 5489u;
  vp_choice_engine() {}
  template <typename T>
  explicit vp_choice_engine(T&&) {}
  template <typename T>
  void seed(T&&) {}
  void seed() {}
  void discard(unsigned long long n) { while (n--) (*this)(); }
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return UINT64_MAX; }
  result_type operator()() { return vp_choice(); }
  friend bool operator==(const vp_choice_engine&, const vp_choice_engine&) { return true; }
  friend bool operator!=(const vp_choice_engine&, const vp_choice_engine&) { return false; }
};
}  // namespace std
#define mt19937_64 vp_choice_engine
#define mt19937 vp_choice_engine
#define minstd_rand vp_choice_engine
#define minstd_rand0 vp_choice_engine
#define default_random_engine vp_choice_engine
#endif
