// Minimal stand-in for libperm (not installable offline): permutations of
// {0..n-1} as image vectors. Only what SeQuant's biorthogonalization.cpp uses.
#ifndef SIM_SHIM_LIBPERM_PERMUTATION_HPP
#define SIM_SHIM_LIBPERM_PERMUTATION_HPP
#include <cstddef>
#include <utility>
#include <vector>
namespace perm {
class Permutation {
  std::vector<std::size_t> img_;

 public:
  Permutation() = default;
  explicit Permutation(std::vector<std::size_t> v) : img_(std::move(v)) {}
  Permutation* operator->() { return this; }
  const Permutation* operator->() const { return this; }
  Permutation& operator*() { return *this; }
  const Permutation& operator*() const { return *this; }
  std::size_t image(std::size_t i) const { return i < img_.size() ? img_[i] : i; }
  std::size_t operator[](std::size_t i) const { return image(i); }
  std::size_t size() const { return img_.size(); }
  void invert() {
    std::vector<std::size_t> r(img_.size());
    for (std::size_t i = 0; i < img_.size(); ++i) r[img_[i]] = i;
    img_.swap(r);
  }
  // this = this * other : first other, then this
  void postMultiply(const Permutation& other) {
    std::vector<std::size_t> r(img_.size());
    for (std::size_t i = 0; i < r.size(); ++i) r[i] = image(other.image(i));
    img_.swap(r);
  }
  // this = other * this
  void preMultiply(const Permutation& other) {
    std::vector<std::size_t> r(img_.size());
    for (std::size_t i = 0; i < r.size(); ++i) r[i] = other.image(image(i));
    img_.swap(r);
  }
  std::vector<std::vector<std::size_t>> toDisjointCycles(std::size_t n) const {
    std::vector<std::vector<std::size_t>> cycles;
    std::vector<char> seen(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
      if (seen[i]) continue;
      std::vector<std::size_t> c;
      for (std::size_t j = i; !seen[j]; j = image(j)) {
        seen[j] = 1;
        c.push_back(j);
      }
      cycles.push_back(std::move(c));
    }
    return cycles;
  }
};
}  // namespace perm
#endif
