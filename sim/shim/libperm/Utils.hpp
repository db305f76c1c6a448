#ifndef SIM_SHIM_LIBPERM_UTILS_HPP
#define SIM_SHIM_LIBPERM_UTILS_HPP
#include <libperm/Permutation.hpp>
namespace perm {
// permutation p with current[i] equivalent to reference[p(i)]
template <typename C, typename Less>
Permutation computeTransformationPermutation(const C& reference, const C& current,
                                             Less less) {
  std::vector<std::size_t> img(current.size());
  std::vector<char> used(reference.size(), 0);
  for (std::size_t i = 0; i < current.size(); ++i)
    for (std::size_t j = 0; j < reference.size(); ++j)
      if (!used[j] && !less(current[i], reference[j]) && !less(reference[j], current[i])) {
        used[j] = 1;
        img[i] = j;
        break;
      }
  return Permutation(std::move(img));
}
}  // namespace perm
#endif
