// C10: evaluating an expression gives its value, whatever is cached, batched or
// shared, in every round of a computation and after every failure.
#include "harness/eval/backend.hpp"

#include <memory>

using namespace simx;

namespace {
void setup_context() {
  program_setup();
  set_default_context(Context({.index_space_registry_shared_ptr = make_registry(),
                               .vacuum = Vacuum::SingleProduct,
                               .metric = IndexSpaceMetric::Unit,
                               .spbasis = SPBasis::Spinor,
                               .first_dummy_index_ordinal = 100}));
}

struct World {
  Model m{sim::range(1, 2), sim::range(1, 2), sim::range(1, 4)};
  TensorGen g{m};
  std::set<std::wstring> volatile_labels;
  int version = 0;
  std::vector<ExprPtr> terms;
  dense::Labels layout;
  std::vector<std::string> ext_labels;

  World() {
    g.spaces = {L"i", L"a", L"x"};
    g.auxes = sim::chance(30);
    g.lone_traces = false;
    g.max_factors = sim::range(1, 4);
    g.max_dummies = sim::range(1, 5);
    g.make_externals(sim::chance(25) ? 0 : sim::range(1, 3));
    for (auto l : {L"t", L"u", L"w"})
      if (sim::chance(40)) volatile_labels.insert(l);
    for (auto& k : g.kinds)
      if (sim::chance(50)) k.symm = Symmetry::Nonsymm;
    const int n = sim::range(1, 4);
    for (int k = 0; k < n; ++k) {
      if (k && sim::chance(60))
        terms.push_back(variant(sim::one_of(terms)));
      else
        terms.push_back(term());
    }
    for (auto& e : g.exts) layout.push_back(name(e.idx));
    ext_labels = layout;
    shuffle(layout);
  }
  static std::string name(const Index& i) { return toUtf8(std::wstring(i.full_label())); }

  // The library takes it that the arrangement of a label's slots never varies
  // (see TensorBlockComparator)
  std::map<std::wstring, std::wstring> kind_of;
  TensorKind shaped(TensorKind k, const TensorGen::Slots& s) {
    auto nb = s.s[0].size(), nk = s.s[1].size();
    if (k.bk == BraKetSymmetry::Symm && nb > nk) std::swap(nb, nk);
    auto l = k.label + std::to_wstring(nb * 100 + nk * 10 + s.s[2].size());
    kind_of[l] = k.label;
    k.label = l;
    return k;
  }
  ExprPtr tensor(TensorGen::Slots s, bool in_sum) {
    auto k = sim::one_of(g.kinds);
    if (k.bk == BraKetSymmetry::Nonsymm && sim::chance(20)) {
      std::swap(s.s[0], s.s[1]);
      auto t = g.tensor(shaped(k, s), s);
      t->adjoint();
      return t;
    }
    k = shaped(k, s);
    // intermediate sums know nothing of their summands' symmetries
    if (in_sum && k.bk == BraKetSymmetry::Symm) {
      shuffle(s.s[0]), shuffle(s.s[1]);
      return ex<Tensor>(k.label, bra(s.s[0]), ket(s.s[1]), aux(s.s[2]), k.symm, k.bk, k.col);
    }
    return g.tensor(k, s);
  }
  /// something with the given slots
  ExprPtr factor(const TensorGen::Slots& s, int depth, bool in_sum = false) {
    if (depth == 0 || sim::chance(70)) return tensor(s, in_sum);
    if (sim::chance(40)) {
      // a product of two tensors with a dummy between them
      TensorGen::Slots x[2];
      for (int r = 0; r < 3; ++r)
        for (auto& i : s.s[r]) x[sim::pick(2)].s[r].push_back(i);
      auto d = g.fresh();
      x[0].s[0].push_back(d);
      x[1].s[1].push_back(d);
      auto p = std::make_shared<Product>();
      if (sim::chance(30)) p->scale(random_scalar());
      for (auto& y : x) p->append(1, factor(y, depth - 1, in_sum), Product::Flatten::No);
      return p;
    }
    auto sum = std::make_shared<Sum>();
    for (int n = sim::range(2, 3); n > 0; --n) {
      auto t = factor(s, depth - 1, true);
      if (sim::chance(30)) {
        auto p = std::make_shared<Product>();
        p->scale(random_scalar());
        if (sim::chance(30)) p->append(1, g.variable());
        p->append(1, t, Product::Flatten::No);
        t = p;
      }
      sum->append(t);
    }
    return sum->size() == 1 ? sum->summand(0) : ExprPtr(sum);
  }
  ExprPtr term() {
    if (g.exts.empty() && sim::chance(6)) return g.scalar();
    if (g.exts.empty()) g.max_factors = std::max(g.max_factors, 2);
    auto sk = g.skeleton();
    for (auto& s : sk)
      if (TensorGen::has_trace(s)) sim::skip("trace");
    // an external auxiliary index may be carried by several factors
    for (auto& e : g.exts)
      if (e.role == 2 && sk.size() > 1 && sim::chance(40)) {
        auto& f = sim::one_of(sk);
        bool has = false;
        for (auto& i : f.s[2]) has |= i == e.idx;
        if (!has) f.s[2].push_back(e.idx);
      }
    auto p = std::make_shared<Product>();
    if (sim::chance(50)) p->scale(random_scalar());
    std::vector<ExprPtr> f;
    for (auto& s : sk) f.push_back(factor(s, sim::pick(3)));
    if (sim::chance(12)) f.push_back(g.variable());
    if (sim::chance(8)) f.push_back(ex<Power>(ex<Variable>(L"v"), rational(sim::range(1, 3))));
    shuffle(f);
    if (f.size() == 1 && p->scalar() == 1 && sim::chance(50)) return f[0];
    for (auto& x : f) p->append(1, x, Product::Flatten::No);
    return p;
  }
  /// the same with indices renamed; externals may be exchanged
  ExprPtr rebuilt(const ExprPtr& e, const std::map<std::wstring, Index>& to, int relabel) {
    if (e->is<Tensor>()) {
      auto& t = e->as<Tensor>();
      auto map = [&](auto&& v) {
        std::vector<Index> r;
        for (auto& i : v) {
          auto it = to.find(std::wstring(i.full_label()));
          r.push_back(it == to.end() ? i : it->second);
        }
        return r;
      };
      return ex<Tensor>(t.label(), bra(map(t.bra())), ket(map(t.ket())), aux(map(t.aux())), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
    }
    if (e->is<Product>()) {
      auto& p = e->as<Product>();
      auto r = std::make_shared<Product>();
      r->scale(relabel && sim::chance(30) ? random_scalar() : p.scalar());
      std::vector<ExprPtr> f;
      for (auto& x : p.factors()) f.push_back(rebuilt(x, to, 0));
      if (relabel && sim::chance(40)) shuffle(f);
      for (auto& x : f) r->append(1, x, Product::Flatten::No);
      return r;
    }
    if (e->is<Sum>()) {
      auto r = std::make_shared<Sum>();
      for (auto& x : e->as<Sum>().summands()) r->append(rebuilt(x, to, 0));
      return r;
    }
    return e->clone();
  }
  static void indices(const ExprPtr& e, std::map<std::wstring, Index>& out) {
    if (e->is<Tensor>()) {
      for (auto& i : e->as<Tensor>().const_indices()) out.emplace(std::wstring(i.full_label()), i);
    } else
      for (auto& x : *e) indices(x, out);
  }
  ExprPtr variant(const ExprPtr& e) {
    std::map<std::wstring, Index> all, to;
    indices(e, all);
    std::set<std::wstring> ext;
    for (auto& x : g.exts) ext.insert(std::wstring(x.idx.full_label()));
    const bool rename = sim::chance(70);
    for (auto& [l, i] : all)
      if (rename && !ext.count(l)) to.emplace(l, g.fresh(std::wstring(i.space().base_key())));
    if (sim::chance(50))
      for (std::size_t a = 0; a < g.exts.size(); ++a)
        for (std::size_t b = a + 1; b < g.exts.size(); ++b)
          if (g.exts[a].idx.space() == g.exts[b].idx.space() && (g.exts[a].role == 2) == (g.exts[b].role == 2) && sim::chance(60)) {
            to.insert_or_assign(std::wstring(g.exts[a].idx.full_label()), g.exts[b].idx);
            to.insert_or_assign(std::wstring(g.exts[b].idx.full_label()), g.exts[a].idx);
            b = a = g.exts.size();
          }
    auto r = rebuilt(e, to, 1);
    // multiply a scalar or replace one factor
    if (r->is<Product>() && sim::chance(40) && !r->as<Product>().empty()) {
      auto& p = r->as<Product>();
      auto q = std::make_shared<Product>();
      q->scale(p.scalar());
      const int k = sim::pick(static_cast<int>(p.size()));
      for (int i = 0; i < static_cast<int>(p.size()); ++i) {
        auto f = p.factor(i);
        if (i == k && f->is<Tensor>() && f->as<Tensor>().label().back() != L'⁺' && f->as<Tensor>().braket_symmetry() != BraKetSymmetry::Symm) {
          auto& t = f->as<Tensor>();
          TensorGen::Slots s;
          for (auto& x : t.bra()) s.s[0].push_back(x);
          for (auto& x : t.ket()) s.s[1].push_back(x);
          for (auto& x : t.aux()) s.s[2].push_back(x);
          f = factor(s, 1);
        }
        q->append(1, f, Product::Flatten::No);
      }
      return q;
    }
    return r;
  }

  // ---- values
  bool is_volatile(const std::wstring& label) const {
    auto l = label;
    while (!l.empty() && l.back() == L'⁺') l.pop_back();
    auto it = kind_of.find(l);
    return it != kind_of.end() && volatile_labels.count(it->second);
  }
  ref::IR ir(const ExprPtr& e) {
    auto r = m.ir(e);
    std::set<std::uint64_t> vol;
    for (auto& [l, k] : kind_of)
      if (volatile_labels.count(k)) vol.insert(ref::hash(toUtf8(l)));
    for (auto& t : r.terms)
      for (auto& f : t.facs)
        if (f.kind == ref::TENSOR && vol.count(f.label)) f.label = ref::mix(f.label, version);
    return r;
  }
  dense::T value(const ref::IR& x, const std::vector<Index>& idx) {
    std::vector<std::vector<int>> modes;
    std::vector<int> ids;
    double vol = 1;
    for (auto& i : idx) {
      ids.push_back(m.id(i));
      std::vector<int> o;
      const auto mask = m.mask(i.space());
      for (int k = 0; k < m.basis.n; ++k)
        if (mask >> k & 1) o.push_back(k);
      vol *= static_cast<double>(o.size());
      modes.push_back(o);
    }
    if (ref::cost(x, m.indices, ids) * vol > 300000) sim::skip("too expensive");
    return dense::make(modes, [&](const std::vector<int>& orb) {
      ref::Eval ev{m.basis, m.indices, {}};
      for (std::size_t k = 0; k < ids.size(); ++k) ev.externals[ids[k]] = orb[k];
      auto v = ev.value(x);
      return v.empty() ? ref::F2{} : v.begin()->second;
    });
  }
  std::vector<Index> layout_indices(const dense::Labels& l) {
    std::vector<Index> r;
    for (auto& n : l)
      for (auto& e : g.exts)
        if (name(e.idx) == n) r.push_back(e.idx);
    return r;
  }
};

/// supplies the tensors; what it hands out stays the property of the caller
struct Store {
  World& w;
  std::map<std::string, std::pair<ResultPtr, dense::T>> have;
  unsigned served = 0;
  ResultPtr get(const Node& n) {
    may_fail();
    ++served;
    sim::NoPreempt np;
    const auto& e = n->expr();
    if (!n->is_tensor()) {
      auto v = w.value(w.ir(e), {});
      return eval_result<Scalar>(Num(v.v[0]));
    }
    auto& t = e->as<Tensor>();
    std::vector<Index> idx;
    for (auto& i : n->canon_indices()) idx.push_back(i);
    std::string key = text(e) + "@" + std::to_string(w.is_volatile(std::wstring(t.label())) ? w.version : 0);
    auto it = have.find(key);
    if (it == have.end()) {
      auto v = w.value(w.ir(e), idx);
      it = have.emplace(key, std::make_pair(eval_result<Tens>(v, ref::hash(toUtf8(std::wstring(t.label())))), v)).first;
    }
    return it->second.first;
  }
  void intact() {
    for (auto& [k, p] : have) SIM_CHECK("leaf-changed", p.first->as<Tens>().data() == p.second, "the caller's tensor was changed: " + k);
  }
};
struct Leaf {
  std::shared_ptr<Store> s;
  ResultPtr operator()(const Node& n) const { return s->get(n); }
};

int live_guards = 0;
struct Guard {
  Guard() { ++live_guards; }
  Guard(const Guard&) { ++live_guards; }
  ~Guard() { --live_guards; }
};

std::string show(const dense::T& t) {
  std::string s;
  for (std::size_t k = 0; k < t.v.size() && k < 6; ++k) s += std::to_string(t.v[k].re) + "+" + std::to_string(t.v[k].im) + "i ";
  return s;
}

template <bool FHC>
void history(World& w) {
  using Cache = CacheManager<Node, FHC>;
  auto store = std::make_shared<Store>(Store{w});
  Leaf le{store};
  // trees
  IndexSet uncontract;
  for (auto& e : w.g.exts) uncontract.emplace(e.idx);
  std::vector<ExprPtr> exprs = w.terms;
  if (exprs.size() > 1 && sim::chance(30)) {
    auto s = std::make_shared<Sum>();
    for (auto& x : exprs) s->append(x->clone());
    exprs = {s};
  }
  std::vector<Node> nodes;
  std::string plan = "layout";
  for (auto& l : w.layout) plan += " " + l;
  for (auto& x : exprs) {
    plan += "\nterm " + text(x);
    sim::note(text(x));
    SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
    if (sim::chance(40))
      nodes.push_back(binarize<NumExpr>(x, uncontract));
    else {
      std::vector<Index> b, k, a;
      for (auto& e : w.g.exts) (e.role == 0 ? b : e.role == 1 ? k : a).push_back(e.idx);
      if (w.g.exts.empty())
        nodes.push_back(binarize<NumExpr>(ResultExpr(Variable(L"R"), x->clone())));
      else
        nodes.push_back(binarize<NumExpr>(ResultExpr(Tensor(L"R", bra(b), ket(k), aux(a)), x->clone())));
    }
    SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
  }
  for (std::size_t k = 0; k < nodes.size(); ++k) {
    if (nodes[k]->op_type() == EvalOp::Adjoint) continue;  // ResultExpr's head hides the tensor
    const auto back = to_expr(nodes[k]);
    const auto idx = w.layout_indices(w.layout);
    SIM_CHECK("value", w.value(w.ir(back), idx) == w.value(w.ir(exprs[k]), idx), "the tree of " + text(exprs[k]) + " stands for " + text(back));
  }
  auto vol_tensor = [&w](const Tensor& t) { return w.is_volatile(std::wstring(t.label())); };
  auto vol_node = [&w](const Node& n) { return n.leaf() && n->is_tensor() && w.is_volatile(std::wstring(n->as_tensor().label())); };
  // cache
  const int kind = sim::pick(4);
  const int repeats = sim::chance(60) ? 2 : sim::range(1, 3);
  const std::wstring bspace = sim::chance(70) ? L"x" : sim::chance(50) ? L"i" : L"a";
  const bool any_axis = sim::chance(20);
  auto batchable = [=](const Index& i) { return any_axis || i.space().base_key() == bspace; };
  const bool veto = sim::chance(40), gate = sim::chance(20);
  const double big = sim::range(1, 12);
  auto make = [&]() -> Cache {
    switch (kind) {
      case 0: return Cache::empty();
      case 1: return cache_manager<FHC>(nodes, static_cast<std::size_t>(repeats));
      default:
        return cache_manager<FHC>(
            nodes, vol_node, static_cast<std::size_t>(repeats),
            [](const Node& n) {
              double f = 1;
              for (std::size_t k = 0; k < n->canon_indices().size(); ++k) f *= 2;
              return f;
            },
            gate ? big : 0., [=](const Index& i) { return veto && batchable(i); });
    }
  };
  auto cache = make();
  const bool batched = sim::chance(50), hooked = sim::chance(20);
  const std::size_t target = static_cast<std::size_t>(sim::range(1, 3));
  const bool persistent_only = sim::chance(20);
  if (batched) {
    auto size = [=](const Index&) { return target; };
    if (sim::chance(50))
      cache.set_custom_evaluator(make_batched_custom_evaluator(
          le, size, batchable, [](std::size_t) { return Guard(); }, vol_node, persistent_only));
    else {
      BatchPolicy p{.is_batchable_index = batchable, .batch_target_size = size, .is_volatile_leaf = vol_tensor, .persistent_only = persistent_only};
      cache.set_custom_evaluator(make_evaluator(p, le));
    }
  }
  if (hooked)
    cache.set_shaped_product_hook([](const std::any&, const Result& l, const Result& r, const std::array<std::any, 3>& an) -> ResultPtr {
      may_fail();
      if (l.is<Scalar>() || sim::chance(50)) return nullptr;
      return l.prod(r, an, DeNest::False);
    });
  plan += "\ncache " + std::to_string(kind) + " repeats " + std::to_string(repeats) + (FHC ? " collisions" : "") + (batched ? " batched over " + (any_axis ? "any" : toUtf8(bspace)) : "") +
          (hooked ? " hook" : "") + "\n";
  sim::note(plan);

  struct Kept {
    ResultPtr r;
    dense::T v;
    std::string what;
  };
  std::vector<Kept> kept;
  const bool faults = sim::chance(60), traced = sim::chance(15);
  const int rounds = sim::range(1, 4);
  int opno = 0;
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      ++w.version;
      cache.reset();
    }
    const int nact = sim::range(1, 4);
    for (int a = 0; a < nact; ++a) {
      if (!sim::op_enabled(opno++)) continue;
      // what to evaluate
      const int how = sim::pick(5);
      std::vector<int> which;
      if (how < 3) {
        which = {sim::pick(static_cast<int>(nodes.size()))};
      } else {
        for (std::size_t k = 0; k < nodes.size(); ++k) which.push_back(static_cast<int>(k));
        shuffle(which);
        if (sim::chance(20)) which.push_back(sim::one_of(which));
      }
      std::vector<Node> list;
      for (int k : which) list.push_back(nodes[k]);
      dense::Labels lay = w.layout;
      if (how == 2) lay = list[0]->annot();
      const bool whole = how >= 3;
      std::string what = "round " + std::to_string(round) + (whole ? " all:" : " one:");
      for (int k : which) what += " " + std::to_string(k);
      // expected
      ref::IR x;
      for (int k : which) {
        auto y = w.ir(exprs[k]);
        x.terms.insert(x.terms.end(), y.terms.begin(), y.terms.end());
      }
      const auto want = w.value(x, w.layout_indices(lay));
      auto go = [&]() -> ResultPtr {
        if (traced) {
          if (whole) return evaluate<Trace::On>(list, lay, le, cache);
          if (how == 2) return evaluate<Trace::On>(list[0], le, cache);
          return evaluate<Trace::On>(list[0], lay, le, cache);
        }
        if (whole && w.g.exts.empty() && how == 4) return evaluate(list, le, cache);
        if (whole) return evaluate(list, lay, le, cache);
        if (how == 2) return evaluate(list[0], le, cache);
        return evaluate(list[0], lay, le, cache);
      };
      if (faults && sim::chance(40)) {
        sim::arm(sim::F_CALLBACK, 1, sim::range(2, 20), sim::range(1, 2));
        ResultPtr r;
        bool failed = false;
        try {
          r = go();
        } catch (Injected&) {
          failed = true;
        }
        sim::disarm(sim::F_CALLBACK);
        if (failed) {
          sim::probe("failed");
          SIM_CHECK("guard-leak", live_guards == 0, "a scope guard outlives the failed evaluation");
          if (sim::chance(50)) cache.reset();
        } else {
          auto v = plain(*r);
          SIM_CHECK("value", v == want, what + " gives " + show(v) + " instead of " + show(want));
        }
      }
      auto r = go();
      SIM_CHECK("value", r != nullptr, what + " gives nothing");
      auto v = plain(*r);
      SIM_CHECK("value", v == want, what + " gives " + show(v) + " instead of " + show(want));
      SIM_CHECK("guard-leak", live_guards == 0, "a scope guard outlives the evaluation");
      sim::event(show(v));
      kept.push_back({r, v, what});
      if (sim::chance(10)) cache.reset();
    }
  }
  store->intact();
  for (auto& k : kept) SIM_CHECK("result-changed", plain(*k.r) == k.v, k.what + ": the result handed out was changed later");
  if (batched) sim::probe("batched");
  if (kind == 1) sim::probe("cached");
  if (kind >= 2) sim::probe("persistent");
  if (rounds > 1) sim::probe("rounds");
}
}  // namespace

SIM_SCENARIO(evaluation) {
  setup_context();
  live_guards = 0;
  tiling = {sim::rnd(), sim::chance(20), sim::chance(20)};
  World w;
  if (sim::chance(15))
    history<true>(w);
  else
    history<false>(w);
}
