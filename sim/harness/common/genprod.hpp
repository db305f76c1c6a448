// Random products and sums of tensors (no operators) and equivalent rewritings.
#ifndef SIM_GENPROD_HPP
#define SIM_GENPROD_HPP
#include "harness/common/gen.hpp"

#include <algorithm>

namespace simx {

template <typename C>
void shuffle(C& c) {
  for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[sim::pick(static_cast<int>(i))]);
}

/// what every occurrence of a label has in common
struct TensorKind {
  std::wstring label;
  Symmetry symm;
  BraKetSymmetry bk;
  ColumnSymmetry col;
};

struct TensorGen : Gen {
  std::vector<TensorKind> kinds;
  struct Ext {
    Index idx;
    int role;  // 0 bra, 1 ket, 2 aux
  };
  std::vector<Ext> exts;
  bool protos = false, auxes = false, operators = false, traces = false, lone_traces = true, lone_braket = true;
  int max_factors = 4, max_dummies = 6;

  explicit TensorGen(Model& model) : Gen(model) {
    static const wchar_t* labels[] = {L"g", L"f", L"t", L"u", L"w", L"A"};
    for (auto l : labels) {
      static const Symmetry ss[] = {Symmetry::Antisymm, Symmetry::Nonsymm, Symmetry::Antisymm, Symmetry::Symm};
      auto s = sim::one_of(ss_(ss));
      auto bk = random_bk();
      auto col = s == Symmetry::Nonsymm && sim::chance(30) ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm;
      if (col == ColumnSymmetry::Nonsymm && bk == BraKetSymmetry::Symm) bk = BraKetSymmetry::Nonsymm;  // no canonical form
      kinds.push_back({l, s, bk, col});
    }
  }
  static std::vector<Symmetry>& ss_(const Symmetry (&a)[4]) {
    static thread_local std::vector<Symmetry> v;
    v.assign(a, a + 4);
    return v;
  }
  void make_externals(int n) {
    for (int k = 0; k < n; ++k) {
      auto i = fresh();
      exts.push_back({i, auxes && sim::chance(20) ? 2 : sim::pick(2)});
      externals.push_back(i);
    }
  }
  struct Slots {
    std::vector<Index> s[3];
    std::size_t size() const { return s[0].size() + s[1].size() + s[2].size(); }
  };
  ExprPtr tensor(const TensorKind& k, Slots s) {
    if (k.bk == BraKetSymmetry::Symm && sim::chance(30)) std::swap(s.s[0], s.s[1]);
    for (int r = 0; r < 2; ++r) shuffle(s.s[r]);
    return ex<Tensor>(k.label, bra(s.s[0]), ket(s.s[1]), aux(s.s[2]), k.symm, k.bk, k.col);
  }
  /// slots of the factors of a random product: every dummy once in a bra and
  /// once in a ket (or twice in aux), every external once
  std::vector<Slots> skeleton() {
    const int nf = sim::range(1, max_factors);
    std::vector<Slots> f(nf);
    for (auto& e : exts) f[sim::pick(nf)].s[e.role].push_back(e.idx);
    const int nd = nf == 1 ? (traces && lone_traces ? sim::pick(2) : 0) : sim::range(std::min(nf - 1, max_dummies), max_dummies);
    std::vector<Index> occ;
    for (auto& e : exts)
      if (e.idx.space().base_key() == L"i") occ.push_back(e.idx);
    for (int d = 0; d < nd; ++d) {
      int x = sim::pick(nf), y = sim::pick(nf);
      if (x == y && !(traces && sim::chance(10))) y = (y + 1) % nf;
      auto room = [&](int t, int r) { return f[t].s[r].size() < 3; };
      Index idx = fresh();
      if (idx.space().base_key() == L"i") occ.push_back(idx);
      if (protos && sim::chance(40) && !occ.empty() && idx.space().base_key() == L"a") {
        // a virtual that depends on one or two occupied indices of the product
        container::vector<Index> p{sim::one_of(occ)};
        if (sim::chance(40)) {
          auto q = sim::one_of(occ);
          if (q != p[0]) p.push_back(q);
        }
        std::sort(p.begin(), p.end());
        idx = Index(std::wstring(idx.label()), p);
      }
      if (auxes && sim::chance(10) && x != y && !idx.has_proto_indices()) {
        f[x].s[2].push_back(idx);
        f[y].s[2].push_back(idx);
      } else if (room(x, 0) && room(y, 1)) {
        f[x].s[0].push_back(idx);
        f[y].s[1].push_back(idx);
      }
    }
    // the occupied indices other indices depend on must exist as proper indices
    std::set<std::wstring> have;
    for (auto& t : f)
      for (auto& s : t.s)
        for (auto& i : s)
          if (!i.has_proto_indices()) have.insert(std::wstring(i.full_label()));
    for (auto& t : f)
      for (auto& s : t.s)
        for (auto& i : s)
          for (auto& p : i.proto_indices())
            if (!have.count(std::wstring(p.full_label()))) return skeleton();
    f.erase(std::remove_if(f.begin(), f.end(), [](auto& s) { return s.size() == 0; }), f.end());
    if (f.empty() || (f.size() == 1 && !lone_traces && has_trace(f[0]))) return skeleton();
    return f;
  }
  static bool has_trace(const Slots& s) {
    std::set<std::wstring> u;
    std::size_t n = 0;
    for (auto& v : s.s)
      for (auto& i : v) u.insert(std::wstring(i.full_label())), ++n;
    return u.size() != n;
  }
  ExprPtr variable() {
    auto v = ex<Variable>(sim::chance(50) ? L"v" : L"z");
    if (sim::chance(25)) v->as<Variable>().conjugate();
    return v;
  }
  ExprPtr constant() { return sim::chance(50) ? ex<Constant>(random_scalar()) : ex<Constant>(sim::range(-40, 40)); }
  ExprPtr scalar() {
    switch (sim::pick(4)) {
      case 0: return variable();
      case 1: {
        auto p = std::make_shared<Product>();
        p->scale(random_scalar());
        for (int k = sim::range(0, 2); k > 0; --k) p->append(1, variable());
        return p;
      }
      default: return constant();
    }
  }
  ExprPtr product(bool nested = false) {
    auto sk = skeleton();
    auto kinds = this->kinds;
    if (sk.size() == 1 && !lone_braket)
      for (auto& k : kinds) k.bk = BraKetSymmetry::Nonsymm;
    std::vector<ExprPtr> f;
    for (auto& s : sk) {
      if (nested && !has_trace(s) && sim::chance(30)) {
        auto sum = std::make_shared<Sum>();
        const int n = sim::range(2, 3);
        for (int k = 0; k < n; ++k) {
          auto t = tensor(sim::one_of(kinds), s);
          if (sim::chance(40)) {
            auto p = std::make_shared<Product>();
            p->scale(random_scalar());
            if (sim::chance(30)) p->append(1, ex<Variable>(L"v"));
            p->append(1, t);
            sum->append(p);
          } else
            sum->append(t);
        }
        f.push_back(sum);
      } else if (operators && s.s[2].empty() && s.size() <= 4 && !has_trace(s) && sim::chance(40))
        f.push_back(ex<FNOperator>(cre(s.s[1]), ann(s.s[0]), Vacuum::SingleProduct));
      else
        f.push_back(tensor(sim::one_of(kinds), s));
    }
    if (sim::chance(12)) f.push_back(variable());
    if (sim::chance(10)) f.push_back(ex<Power>(ex<Variable>(L"v"), rational(sim::range(1, 3))));
    shuffle(f);
    auto p = std::make_shared<Product>();
    p->scale(random_scalar());
    for (auto& x : f) p->append(1, x, Product::Flatten::No);
    return p;
  }
  ExprPtr sum(int n, bool nested) {
    auto s = std::make_shared<Sum>();
    for (int k = 0; k < n; ++k) {
      if (exts.empty() && sim::chance(10))
        s->append(scalar());
      else
        s->append(product(nested));
    }
    return s;
  }

  /// the same product written in another way: dummies renamed, factors and
  /// equivalent slots reordered. Tensors only; sign goes to the scalar
  ExprPtr rewritten(const ExprPtr& e) {
    auto& p = e->as<Product>();
    std::set<std::wstring> ext;
    for (auto& i : externals) ext.insert(std::wstring(i.full_label()));
    std::map<std::wstring, Index> ren;
    std::vector<Index> dummies;
    auto see = [&](const Index& i) {
      auto l = std::wstring(i.label());
      if (!i.has_proto_indices() && ext.count(std::wstring(i.full_label()))) return;
      if (ren.count(l)) return;
      ren.emplace(l, i);
      dummies.push_back(i);
    };
    for (auto& f : p.factors())
      if (f->is<Tensor>())
        for (auto& i : f->as<Tensor>().const_indices()) {
          for (auto& q : i.proto_indices()) see(q);
          see(i);
        }
    // new names: a permutation of the ordinals within each space, or fresh ones
    const bool fresh_names = sim::chance(50);
    std::map<std::wstring, std::vector<std::wstring>> names;
    for (auto& d : dummies) names[std::wstring(d.space().base_key())].push_back(std::wstring(d.label()));
    for (auto& [k, v] : names) {
      shuffle(v);
      if (fresh_names)
        for (auto& n : v) n = std::wstring(fresh(k).label());
    }
    std::map<std::wstring, std::wstring> to;
    for (auto& d : dummies) {
      auto& v = names[std::wstring(d.space().base_key())];
      to[std::wstring(d.label())] = v.back();
      v.pop_back();
    }
    auto map = [&](const Index& i) {
      auto one = [&](const Index& x) {
        auto it = to.find(std::wstring(x.label()));
        return it == to.end() ? Index(x.label()) : Index(it->second);
      };
      if (!i.has_proto_indices()) return one(i);
      container::vector<Index> q;
      for (auto& x : i.proto_indices()) q.push_back(one(x));
      std::sort(q.begin(), q.end());
      return Index(std::wstring(one(i).label()), q);
    };
    int sign = 1;
    std::vector<ExprPtr> f;
    for (auto& x : p.factors()) {
      if (!x->is<Tensor>()) {
        f.push_back(x->clone());
        continue;
      }
      auto& t = x->as<Tensor>();
      std::vector<Index> b, k, a;
      for (auto& i : t.bra()) b.push_back(map(i));
      for (auto& i : t.ket()) k.push_back(map(i));
      for (auto& i : t.aux()) a.push_back(map(i));
      auto perm = [&](std::vector<Index>& v) {
        for (std::size_t i = v.size(); i > 1; --i) {
          auto j = sim::pick(static_cast<int>(i));
          if (static_cast<std::size_t>(j) != i - 1) {
            std::swap(v[i - 1], v[j]);
            if (t.symmetry() == Symmetry::Antisymm) sign = -sign;
          }
        }
      };
      if (t.symmetry() != Symmetry::Nonsymm) {
        perm(b);
        perm(k);
      } else if (t.column_symmetry() == ColumnSymmetry::Symm && b.size() == k.size()) {
        for (std::size_t i = b.size(); i > 1; --i) {
          auto j = sim::pick(static_cast<int>(i));
          std::swap(b[i - 1], b[j]);
          std::swap(k[i - 1], k[j]);
        }
      }
      if (t.braket_symmetry() == BraKetSymmetry::Symm && (t.symmetry() != Symmetry::Nonsymm || b.size() == k.size()) && sim::chance(40))
        std::swap(b, k);
      f.push_back(ex<Tensor>(t.label(), bra(b), ket(k), aux(a), t.symmetry(), t.braket_symmetry(), t.column_symmetry()));
    }
    shuffle(f);
    auto r = std::make_shared<Product>();
    r->scale(p.scalar());
    r->scale(sign);
    for (auto& x : f) r->append(1, x);
    return r;
  }
};
}  // namespace simx
#endif
