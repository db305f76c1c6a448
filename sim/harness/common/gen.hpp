// Random expressions over the reference model's one-particle basis.
#ifndef SIM_GEN_HPP
#define SIM_GEN_HPP
#include "harness/common/toir.hpp"

#include <set>

namespace simx {

/// library-wide settings every program makes once, at start-up
inline void program_setup() {
  static sequant::detail::OpIdRegistrar op_id_registrar;
  TensorCanonicalizer::set_cardinal_tensor_labels({L"A", L"S", L"f", L"g", L"t", L"λ"});
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
}

struct Gen {
  Model& m;
  int next = 1;  // ordinal of the next index
  std::vector<Index> externals;
  std::vector<Index> named;  // externals used so far by the term being made
  explicit Gen(Model& model) : m(model) {}

  std::vector<std::wstring> spaces = {L"i", L"a", L"p"};
  Index fresh(const std::wstring& base) {
    if (next >= 99) sim::skip("too many indices");
    return Index(base + L"_" + std::to_wstring(next++));
  }
  Index fresh() { return fresh(sim::one_of(spaces)); }

  ref::IR ir(const ExprPtr& e) { return m.ir(e); }
  std::vector<int> ext() {
    std::vector<int> r;
    for (auto& i : externals) r.push_back(m.id(i));
    return r;
  }
};

inline Constant::scalar_type random_scalar() {
  static const int num[] = {1, 1, 1, -1, 2, -3, 5}, den[] = {1, 1, 2, 4, 3};
  rational re(num[sim::pick(7)], den[sim::pick(5)]);
  rational im = sim::chance(15) ? rational(num[sim::pick(7)], 2) : rational(0);
  return {re, im};
}

inline BraKetSymmetry random_bk() {
  static const BraKetSymmetry v[] = {BraKetSymmetry::Conjugate, BraKetSymmetry::Nonsymm, BraKetSymmetry::Symm};
  return v[sim::pick(3)];
}
}  // namespace simx
#endif
