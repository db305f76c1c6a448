// Library expressions -> reference model, and the one-particle bases the
// scenarios use.
#ifndef SIM_TOIR_HPP
#define SIM_TOIR_HPP
#include "plain/ref.hpp"
#include "rt/sim.hpp"

#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/utility/string.hpp>

namespace simx {
using namespace sequant;

/// the one-particle basis: i (occupied), a, x (unoccupied), p=i+a, y=a+x,
/// z=i+a+x; orbitals are numbered i, a, x
struct Model {
  ref::Basis basis;
  ref::Indices indices;
  int ni, na, nx;
  std::vector<std::pair<int, unsigned>> bits;  // of a space's type -> orbitals
  bool spinfree = false;

  Model(int i, int a, int x) : ni(i), na(a), nx(x) {
    basis.n = i + a + x;
    basis.occ = (1u << i) - 1;
    basis.seed = sim::rnd();
    bits = {{1, (1u << ni) - 1}, {2, ((1u << na) - 1) << ni}, {4, ((1u << nx) - 1) << (ni + na)}};
  }
  /// base spaces of any registry: type bit, number of orbitals, occupied?
  struct Base {
    int bit, n;
    bool occ;
  };
  explicit Model(const std::vector<Base>& bases) : ni(0), na(0), nx(0) {
    for (auto& b : bases) {
      const unsigned m = ((1u << b.n) - 1) << basis.n;
      bits.push_back({b.bit, m});
      if (b.occ) basis.occ |= m;
      basis.n += b.n;
    }
    basis.seed = sim::rnd();
  }
  unsigned mask(const IndexSpace& s) const {
    const auto t = s.type().to_int32();
    unsigned m = 0;
    for (auto& [bit, orbs] : bits)
      if (t & bit) m |= orbs;
    return m;
  }
  int id(const Index& idx) {
    const std::string name = toUtf8(std::wstring(idx.full_label()));
    auto it = indices.id.find(name);
    if (it != indices.id.end()) return it->second;
    const int k = static_cast<int>(indices.space.size());
    indices.id.emplace(name, k);
    indices.space.push_back({mask(idx.space())});
    return k;
  }
  ref::IdxRef ref(const Index& idx) {
    ref::IdxRef r;
    if (!idx.nonnull()) return r;
    for (auto& p : idx.proto_indices()) r.proto.push_back(id(p));
    r.id = id(idx);
    return r;
  }
  ref::F2 scalar(const Constant::scalar_type& c) {
    auto part = [](const rational& q) { return ref::frac(numerator(q).str(), denominator(q).str()); };
    auto re = part(c.real()), im = part(c.imag());
    return re + im * ref::F2{0, 1};
  }
  using Terms = std::vector<ref::Term>;
  static ref::Term mul(const ref::Term& a, const ref::Term& b) {
    ref::Term r = a;
    r.coef = a.coef * b.coef;
    r.facs.insert(r.facs.end(), b.facs.begin(), b.facs.end());
    return r;
  }
  template <Statistics S>
  ref::Fac nop(const NormalOperator<S>& n) {
    ref::Fac f;
    f.kind = S == Statistics::FermiDirac ? ref::NOP_F : ref::NOP_B;
    f.physical = n.vacuum() == Vacuum::Physical;
    f.spinfree = spinfree;
    for (auto& op : n) f.ops.push_back({ref(op.index()), op.action() == Action::Create});
    return f;
  }
  Terms terms(const Expr& e) {
    if (e.is<Constant>()) return {{scalar(e.as<Constant>().value()), {}}};
    if (e.is<Variable>()) {
      ref::Fac f;
      f.kind = ref::SCALAR;
      f.label = ref::hash(toUtf8(std::wstring(e.as<Variable>().label())));
      f.adj = e.as<Variable>().conjugated();
      return {{ref::num(1), {f}}};
    }
    if (e.is<Power>()) {
      const auto& p = e.as<Power>();
      if (denominator(p.exponent()) == 2 && p.base()->is<Constant>() && p.base()->as<Constant>().value().imag() == 0 &&
          p.base()->as<Constant>().value().real() > 0) {
        const auto b = p.base()->as<Constant>().value().real();
        ref::F2 x, y;
        if (!ref::sqrt_int(static_cast<unsigned long>(numerator(b)), x) || !ref::sqrt_int(static_cast<unsigned long>(denominator(b)), y))
          sim::skip("irrational power");
        const auto root = x * ref::inv(y);
        const long n = static_cast<long>(numerator(p.exponent()));
        ref::F2 r = ref::num(1);
        for (long k = 0; k < std::abs(n); ++k) r = r * root;
        if (n < 0) r = ref::inv(r);
        return {{r, {}}};
      }
      if (denominator(p.exponent()) != 1) sim::skip("fractional power");
      auto b = terms(*p.base());
      ref::F2 v = b.empty() ? ref::F2{} : b[0].coef;
      if (!b.empty())
        for (auto& f : b[0].facs) {
          auto x = ref::random_value(ref::mix(basis.seed, f.label));
          v = v * (f.adj ? ref::conj(x) : x);
        }
      long n = static_cast<long>(numerator(p.exponent()));
      ref::F2 r = ref::num(1);
      for (long k = 0; k < std::abs(n); ++k) r = r * v;
      if (n < 0) r = ref::inv(r);
      if (p.conjugated()) r = ref::conj(r);
      return {{r, {}}};
    }
    if (e.is<Tensor>()) {
      const auto& t = e.as<Tensor>();
      ref::Fac f;
      std::string label = toUtf8(std::wstring(t.label()));
      const std::string adj = "⁺";
      if (label.size() > adj.size() && label.ends_with(adj)) {
        f.adj = true;
        label.resize(label.size() - adj.size());
      }
      f.kind = (t.label() == reserved::kronecker_label() || t.label() == reserved::overlap_label()) ? ref::DELTA : ref::TENSOR;
      f.label = ref::hash(label);
      for (auto& i : t.bra()) f.bra.push_back(ref(i));
      for (auto& i : t.ket()) f.ket.push_back(ref(i));
      for (auto& i : t.aux()) f.aux.push_back(ref(i));
      f.symm = t.symmetry() == Symmetry::Symm ? ref::SYMM : t.symmetry() == Symmetry::Antisymm ? ref::ANTISYMM : ref::NONSYMM;
      f.bk = t.braket_symmetry() == BraKetSymmetry::Symm        ? ref::BK_SYMM
             : t.braket_symmetry() == BraKetSymmetry::Conjugate ? ref::BK_CONJ
                                                                : ref::BK_NONSYMM;
      f.colsymm = t.column_symmetry() == ColumnSymmetry::Symm;
      return {{ref::num(1), {f}}};
    }
    if (e.is<FNOperator>()) return {{ref::num(1), {nop(e.as<FNOperator>())}}};
    if (e.is<BNOperator>()) return {{ref::num(1), {nop(e.as<BNOperator>())}}};
    if (e.is<FNOperatorSeq>() || e.is<BNOperatorSeq>()) {
      ref::Term t{ref::num(1), {}};
      if (e.is<FNOperatorSeq>())
        for (auto& n : e.as<FNOperatorSeq>()) t.facs.push_back(nop(n));
      else
        for (auto& n : e.as<BNOperatorSeq>()) t.facs.push_back(nop(n));
      return {t};
    }
    if (e.is<Product>()) {
      const auto& p = e.as<Product>();
      Terms r{{scalar(p.scalar()), {}}};
      for (auto& f : p.factors()) {
        auto x = terms(*f);
        Terms n;
        for (auto& a : r)
          for (auto& b : x) n.push_back(mul(a, b));
        r = std::move(n);
      }
      return r;
    }
    if (e.is<Sum>()) {
      Terms r;
      for (auto& s : e.as<Sum>().summands()) {
        auto x = terms(*s);
        r.insert(r.end(), x.begin(), x.end());
      }
      return r;
    }
    sim::violation("harness", "expression of unknown type");
  }
  ref::IR ir(const ExprPtr& e) {
    ref::IR r;
    if (e) r.terms = terms(*e);
    return r;
  }
};

inline std::shared_ptr<IndexSpaceRegistry> make_registry(Field field = Field::Complex) {
  auto r = std::make_shared<IndexSpaceRegistry>();
  r->add(L"i", 0b001, is_vacuum_occupied, is_reference_occupied, is_hole, field)
      .add(L"a", 0b010, is_particle, field)
      .add(L"x", 0b100, field)
      .add(L"p", 0b011, field)
      .add(L"y", 0b110, field)
      .add(L"z", 0b111, is_complete, field);
  return r;
}

inline std::string text(const ExprPtr& e) { return e ? toUtf8(serialize(e)) : "null"; }
}  // namespace simx
#endif
