// stands in for std::random_device in file_store.cc, so that names collide now and then
#ifndef VERIF_STORE_RANDOM
#define VERIF_STORE_RANDOM
#include <random>
extern "C" unsigned verif_random(void);
namespace std {
struct VerifRandomDevice {
  typedef unsigned result_type;
  static constexpr unsigned min() { return 0; }
  static constexpr unsigned max() { return 0xffffffffu; }
  VerifRandomDevice() {}
  explicit VerifRandomDevice(const std::string &) {}
  unsigned operator()() { return verif_random(); }
  double entropy() const noexcept { return 32; }
};
}
#define random_device VerifRandomDevice
#endif
