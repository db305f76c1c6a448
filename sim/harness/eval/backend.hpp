// A stand-in numerical backend for the evaluation engine: exact arithmetic, and
// every operation may fail or see the data sliced.
#ifndef SIM_BACKEND_HPP
#define SIM_BACKEND_HPP
#include "harness/common/genprod.hpp"
#include "plain/dense.hpp"

#include <SeQuant/core/eval/eval.hpp>

namespace simx {
struct Injected : std::runtime_error {
  Injected() : std::runtime_error("injected") {}
};
inline void may_fail() {
  if (sim::fire(sim::F_CALLBACK)) throw Injected();
}

struct Num {
  ref::F2 x;
  Num() = default;
  Num(ref::F2 v) : x(v) {}
  explicit Num(std::int8_t n) : x(ref::num(n)) {}
  Num& operator+=(const Num& o) { return x = x + o.x, *this; }
  friend Num operator+(Num a, Num b) { return {a.x + b.x}; }
  friend Num operator*(Num a, Num b) { return {a.x * b.x}; }
};
using Scalar = ResultScalar<Num>;

class NumExpr final : public EvalExpr {
 public:
  using annot_t = dense::Labels;
  template <typename... A, typename = std::enable_if_t<std::is_constructible_v<EvalExpr, A...>>>
  NumExpr(A&&... a) : EvalExpr(std::forward<A>(a)...) {
    for (auto& i : canon_indices()) annot_.push_back(toUtf8(std::wstring(i.full_label())));
  }
  const annot_t& annot() const noexcept { return annot_; }

 private:
  annot_t annot_;
};
using Node = EvalNode<NumExpr>;
static_assert(sequant::meta::can_evaluate<Node>);

/// how a mode is stored in pieces: same for all modes over the same orbitals,
/// or not
struct Tiling {
  std::uint64_t seed = 0;
  bool by_tensor = false, empty_batches = false;
};
inline Tiling tiling;

class Tens final : public Result {
 public:
  explicit Tens(dense::T t, std::uint64_t tag = 0) : Result(std::move(t)), tag_(tag) {}
  const dense::T& data() const { return get<dense::T>(); }
  ResultPtr sum(const Result& o, const std::array<std::any, 3>& an) const override {
    may_fail();
    const Annot<dense::Labels> a(an);
    dense::T l, r, s;
    run([&] {
      auto e = dense::permute(data(), a.lannot, a.this_annot, l);
      if (e.empty()) e = dense::permute(tensor(o), a.rannot, a.this_annot, r);
      if (e.empty()) e = dense::add(l, r, s);
      return e;
    });
    return eval_result<Tens>(std::move(s));
  }
  ResultPtr prod(const Result& o, const std::array<std::any, 3>& an, DeNest) const override {
    may_fail();
    const Annot<dense::Labels> a(an);
    dense::T r;
    if (o.is<Scalar>()) {
      run([&] { return dense::permute(data(), a.lannot, a.this_annot, r); });
      return eval_result<Tens>(dense::scaled(r, o.as<Scalar>().value().x));
    }
    run([&] { return dense::contract(data(), a.lannot, tensor(o), a.rannot, a.this_annot, r); });
    if (a.this_annot.empty()) return eval_result<Scalar>(Num(r.v.at(0)));
    return eval_result<Tens>(std::move(r));
  }
  ResultPtr permute(const std::array<std::any, 2>& an) const override {
    may_fail();
    dense::T r;
    run([&] { return dense::permute(data(), std::any_cast<dense::Labels>(an[0]), std::any_cast<dense::Labels>(an[1]), r); });
    return eval_result<Tens>(std::move(r));
  }
  ResultPtr adjoint(const std::array<std::any, 2>& an) const override {
    may_fail();
    dense::T r;
    run([&] { return dense::permute(data(), std::any_cast<dense::Labels>(an[0]), std::any_cast<dense::Labels>(an[1]), r); });
    return eval_result<Tens>(dense::conjugated(r));
  }
  ResultPtr slice_mode(std::size_t mode, std::size_t lo, std::size_t hi) const override {
    may_fail();
    SIM_CHECK("slice", mode < data().modes.size() && lo <= hi && hi <= data().modes[mode].size(), "slice outside the tensor");
    return eval_result<Tens>(dense::slice(data(), mode, lo, hi), tag_);
  }
  container::svector<std::pair<std::size_t, std::size_t>> mode_batches(std::size_t mode, std::size_t target) const override {
    may_fail();
    SIM_CHECK("slice", mode < data().modes.size(), "no such mode");
    const auto& m = data().modes[mode];
    // storage tiles: a function of the mode's orbitals (and maybe of the tensor)
    std::uint64_t h = ref::mix(tiling.seed, tiling.by_tensor ? ref::mix(tag_, mode) : 0);
    for (int o : m) h = ref::mix(h, static_cast<std::uint64_t>(o));
    container::svector<std::pair<std::size_t, std::size_t>> r;
    std::size_t lo = 0;
    for (std::size_t k = 1; k <= m.size(); ++k) {
      const bool tile_end = k == m.size() || ref::mix(h, k) % 3;
      if (!tile_end) continue;
      // close the batch if the next tile would make it too big
      std::size_t next = k + 1;
      while (next < m.size() && !(ref::mix(h, next) % 3)) ++next;
      if (k == m.size() || next - lo > target) {
        if (tiling.empty_batches && ref::mix(h, 99 + k) % 3 == 0) r.emplace_back(lo, lo);
        r.emplace_back(lo, k);
        lo = k;
      }
    }
    return r;
  }
  void add_inplace(const Result& o) override {
    may_fail();
    dense::T r;
    run([&] { return dense::add(data(), tensor(o), r); });
    get<dense::T>() = std::move(r);
  }
  ResultPtr symmetrize() const override { throw sequant::detail::unimplemented_method("symmetrize"); }
  ResultPtr antisymmetrize(size_t) const override { throw sequant::detail::unimplemented_method("antisymmetrize"); }
  ResultPtr mult_by_phase(std::int8_t f) const override {
    may_fail();
    return eval_result<Tens>(dense::scaled(data(), ref::num(f)));
  }
  std::size_t size_in_bytes() const override { return data().v.size() * sizeof(ref::F2); }

 private:
  std::uint64_t tag_;
  id_t type_id() const noexcept override { return id_for_type<Tens>(); }
  static const dense::T& tensor(const Result& o) {
    SIM_CHECK("backend", o.is<Tens>(), "a scalar where a tensor is needed");
    return o.as<Tens>().data();
  }
  template <typename F>
  static void run(F&& f) {
    const std::string e = f();
    SIM_CHECK("backend", e.empty(), "operation no backend can do: " + e);
  }
};

/// value of a result: a tensor with no modes for a scalar
inline dense::T plain(const Result& r) {
  if (r.is<Scalar>()) return {{}, {r.as<Scalar>().value().x}};
  return r.as<Tens>().data();
}
}  // namespace simx
#endif
