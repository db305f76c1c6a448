#ifndef SIM_SHIM_LIBPERM_RANK_HPP
#define SIM_SHIM_LIBPERM_RANK_HPP
#include <libperm/Permutation.hpp>
namespace perm {
// lexicographic rank
inline std::size_t rank(const Permutation& p, std::size_t n) {
  std::size_t r = 0;
  for (std::size_t i = 0; i < n; ++i) {
    std::size_t less = 0;
    for (std::size_t j = i + 1; j < n; ++j) less += p.image(j) < p.image(i);
    r = r * (n - i) + less;
  }
  return r;
}
inline Permutation unrank(std::size_t r, std::size_t n) {
  std::vector<std::size_t> code(n), avail(n), img(n);
  for (std::size_t i = 0; i < n; ++i) avail[i] = i;
  for (std::size_t i = n; i-- > 0;) {
    code[i] = r % (n - i);
    r /= (n - i);
  }
  for (std::size_t i = 0; i < n; ++i) {
    img[i] = avail[code[i]];
    avail.erase(avail.begin() + static_cast<std::ptrdiff_t>(code[i]));
  }
  return Permutation(std::move(img));
}
}  // namespace perm
#endif
