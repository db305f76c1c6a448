// Dense tensors over F_{p^2}: the storage and arithmetic of the stand-in
// numerical backend. Not instrumented, no library code.
#ifndef SIM_DENSE_HPP
#define SIM_DENSE_HPP
#include "plain/ref.hpp"

namespace dense {
using ref::F2;
using Labels = std::vector<std::string>;
struct T {
  std::vector<std::vector<int>> modes;  // orbitals along each mode
  std::vector<F2> v;                    // last mode runs fastest
  friend bool operator==(const T&, const T&) = default;
};
T make(std::vector<std::vector<int>> modes, const std::function<F2(const std::vector<int>& orbitals)>& f);
// each returns "" or what a real backend would refuse
std::string permute(const T& a, const Labels& la, const Labels& lr, T& r);
std::string add(const T& a, const T& b, T& r);
std::string contract(const T& a, const Labels& la, const T& b, const Labels& lb, const Labels& lr, T& r);
T scaled(const T& a, F2 c);
T conjugated(const T& a);
T slice(const T& a, std::size_t mode, std::size_t lo, std::size_t hi);
}  // namespace dense
#endif
