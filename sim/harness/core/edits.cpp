// C11: an expression is what the history of edits made through it says: its
// value, hash, equality and order follow every edit at once; copies and
// operands are independent of it; a failed edit leaves all of them usable.
#include "harness/common/genprod.hpp"

#include <SeQuant/core/expressions/power.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>

#include <optional>
#include <thread>

using namespace simx;

namespace {

// ---- the model: values as sums of products of factors
ref::Fac adjoint(ref::Fac f) {
  if (f.kind == ref::SCALAR)
    f.adj = !f.adj;
  else if (f.kind == ref::NOP_F || f.kind == ref::NOP_B) {
    std::reverse(f.ops.begin(), f.ops.end());
    for (auto& o : f.ops) o.create = !o.create;
  } else {
    std::swap(f.bra, f.ket);
    if (f.kind == ref::TENSOR && f.bk == ref::BK_NONSYMM) f.adj = !f.adj;
  }
  return f;
}
ref::IR adjoint(const ref::IR& x) {
  ref::IR r;
  for (auto& t : x.terms) {
    ref::Term u{ref::conj(t.coef), {}};
    for (auto f = t.facs.rbegin(); f != t.facs.rend(); ++f) u.facs.push_back(adjoint(*f));
    r.terms.push_back(u);
  }
  return r;
}
ref::IR operator+(ref::IR a, const ref::IR& b) {
  a.terms.insert(a.terms.end(), b.terms.begin(), b.terms.end());
  return a;
}
ref::IR operator*(const ref::IR& a, const ref::IR& b) {
  ref::IR r;
  for (auto& s : a.terms)
    for (auto& t : b.terms) r.terms.push_back(Model::mul(s, t));
  return r;
}
ref::IR scaled(ref::IR a, ref::F2 c) {
  for (auto& t : a.terms) t.coef = t.coef * c;
  return a;
}
ref::IR renamed(ref::IR a, const std::map<int, int>& m) {
  auto one = [&](int& i) {
    if (auto it = m.find(i); it != m.end()) i = it->second;
  };
  auto ref1 = [&](ref::IdxRef& r) {
    one(r.id);
    for (auto& p : r.proto) one(p);
  };
  for (auto& t : a.terms)
    for (auto& f : t.facs) {
      for (auto* v : {&f.bra, &f.ket, &f.aux})
        for (auto& r : *v) ref1(r);
      for (auto& o : f.ops) ref1(o.idx);
    }
  return a;
}

// the same object made anew from what it shows of itself; null if its parts
// cannot be put together that way (a zero or second constant within a sum)
ExprPtr remade(const Expr& e) {
  auto idx = [](const auto& range) {
    std::vector<Index> r;
    for (const Index& i : range) {
      if (!i.nonnull())
        r.push_back(Index());
      else if (i.has_proto_indices()) {
        container::vector<Index> p;
        for (auto& q : i.proto_indices()) p.push_back(Index(std::wstring(q.label())));
        r.push_back(Index(std::wstring(i.label()), p));
      } else
        r.push_back(Index(std::wstring(i.label())));
    }
    return r;
  };
  if (e.is<Constant>()) return ex<Constant>(e.as<Constant>().value());
  if (e.is<Variable>()) {
    auto v = ex<Variable>(std::wstring(e.as<Variable>().label()));
    if (e.as<Variable>().conjugated()) v->as<Variable>().conjugate();
    return v;
  }
  if (e.is<Power>()) {
    auto p = ex<Power>(remade(*e.as<Power>().base()), e.as<Power>().exponent());
    if (e.as<Power>().conjugated()) p->as<Power>().conjugate();
    return p;
  }
  if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    return ex<Tensor>(std::wstring(t.label()), bra(idx(t.bra())), ket(idx(t.ket())), aux(idx(t.aux())), t.symmetry(), t.braket_symmetry(),
                      t.column_symmetry());
  }
  if (e.is<FNOperator>()) {
    auto& n = e.as<FNOperator>();
    std::vector<Index> c, a;
    for (auto& o : n.creators()) c.push_back(o.index());
    for (auto& o : n.annihilators()) a.push_back(o.index());
    return ex<FNOperator>(cre(idx(c)), ann(idx(a)), n.vacuum());
  }
  if (e.is<Product>()) {
    auto p = std::make_shared<Product>();
    p->scale(e.as<Product>().scalar());
    for (auto& f : e.as<Product>().factors()) {
      auto x = remade(*f);
      if (!x) return {};
      p->factors().push_back(x);
    }
    return p;
  }
  if (e.is<Sum>()) {
    container::svector<ExprPtr, 2> v;
    for (auto& s : e.as<Sum>().summands()) {
      auto x = remade(*s);
      if (!x) return {};
      v.push_back(x);
    }
    const auto n = v.size();
    auto s = std::make_shared<Sum>(std::move(v), Sum::move_only_tag{});
    return s->size() == n ? ExprPtr(s) : ExprPtr{};
  }
  sim::violation("harness", "unknown expression");
}

// complete description of an expression's structure
std::string shape(const Expr& e) {
  auto scal = [](const Constant::scalar_type& c) {
    return numerator(c.real()).str() + "/" + denominator(c.real()).str() + "," + numerator(c.imag()).str() + "/" + denominator(c.imag()).str();
  };
  auto idx = [](const auto& range) {
    std::string r;
    for (const Index& i : range) {
      r += i.nonnull() ? toUtf8(std::wstring(i.label())) : "_";
      for (auto& p : i.proto_indices()) r += "<" + toUtf8(std::wstring(p.label())) + ">";
      r += " ";
    }
    return r;
  };
  if (e.is<Constant>()) return "C(" + scal(e.as<Constant>().value()) + ")";
  if (e.is<Variable>()) return "V(" + toUtf8(std::wstring(e.as<Variable>().label())) + (e.as<Variable>().conjugated() ? "*)" : ")");
  if (e.is<Power>()) {
    auto& p = e.as<Power>();
    return "P(" + shape(*p.base()) + "^" + numerator(p.exponent()).str() + "/" + denominator(p.exponent()).str() + (p.conjugated() ? "*)" : ")");
  }
  if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    return "T(" + toUtf8(std::wstring(t.label())) + "|" + idx(t.bra()) + "|" + idx(t.ket()) + "|" + idx(t.aux()) + "|" +
           std::to_string(int(t.symmetry())) + std::to_string(int(t.braket_symmetry())) + std::to_string(int(t.column_symmetry())) + "|" +
           std::to_string(t.bra_net_rank()) + std::to_string(t.ket_net_rank()) + ")";
  }
  if (e.is<FNOperator>()) {
    auto& n = e.as<FNOperator>();
    std::vector<Index> c, a;
    for (auto& o : n.creators()) c.push_back(o.index());
    for (auto& o : n.annihilators()) a.push_back(o.index());
    return "N(" + idx(c) + "|" + idx(a) + "|" + (n.vacuum() == Vacuum::Physical ? "p" : "s") + ")";
  }
  std::string r = e.is<Product>() ? "*(" + scal(e.as<Product>().scalar()) : "+(";
  for (auto& x : e) r += " " + shape(*x);
  return r + ")";
}

// powers cannot be shown in this format
std::wstring latex(const Expr& e) { return shape(e).find("P(") == std::string::npos ? e.to_latex() : L""; }

struct Pool {
  Model m{sim::range(1, 2), sim::range(1, 2), 0};
  TensorGen g{m};
  std::vector<int> kets{-1};
  std::vector<ExprPtr> e;
  std::vector<std::string> shapes;

  Pool(int first) {
    g.next = first;
    g.operators = sim::chance(50);
    g.auxes = sim::chance(20);
    g.max_dummies = sim::range(1, 3);
    g.max_factors = 3;
    g.make_externals(sim::chance(50) ? 0 : sim::range(1, 2));
    if (g.operators) kets = {-1, 0, 1, 2, 3};
    const int n = sim::range(2, 4);
    for (int k = 0; k < n; ++k) {
      e.push_back(make());
      shapes.push_back(shape(*e.back()));
    }
  }
  ExprPtr make() {
    switch (sim::pick(8)) {
      case 0: return g.constant();
      case 1: return g.variable();
      case 2: return g.scalar();
      case 3: return ex<Power>(sim::chance(50) ? ex<Variable>(L"v") : ex<Constant>(sim::range(2, 9)), rational(sim::range(0, 3)));
      case 4: return g.sum(sim::range(2, 3), sim::chance(20));
      case 5: {
        auto p = g.product();
        return p->as<Product>().empty() ? p : p->as<Product>().factors()[0]->clone();
      }
      default: return g.product(sim::chance(20));
    }
  }
  ref::IR ir(const ExprPtr& x) { return m.ir(x); }
  void check_value(const ref::IR& want, const ExprPtr& x, const std::string& what) {
    const auto got = ir(x);
    if (ref::dump(want) == ref::dump(got)) return;
    // the same terms in another form?
    if (ref::cost(want, m.indices, g.ext()) + ref::cost(got, m.indices, g.ext()) > 200000) return sim::probe("too-expensive");
    auto d = ref::compare(want, got, m.basis, m.indices, g.ext(), 6, kets, 11);
    SIM_CHECK("value", d.empty(), what + ": " + d + "\nis " + shape(*x));
    sim::probe("value-compared");
  }
  // hash, equality, order agree with the structure
  void check_consistent(const ExprPtr& x, const std::string& what) {
    auto r = remade(*x);
    if (!r) return sim::probe("not-remade");
    SIM_CHECK("stale", shape(*r) == shape(*x), what + ": shows itself differently than the same expression made anew\n" + shape(*x) + "\n" + shape(*r));
    const bool ok = x->hash_value() == r->hash_value() && *x == *r && *r == *x && !(*x < *r) && !(*r < *x) && latex(*x) == latex(*r);
    SIM_CHECK("stale", ok,
              what + ": differs from the same expression made anew" + (x->hash_value() == r->hash_value() ? "" : " (hash)") +
                  (*x == *r ? "" : " (==)") + (latex(*x) == latex(*r) ? "" : " (latex)") + "\n" + shape(*x));
  }
  void check_others(std::size_t but, const std::string& what) {
    for (std::size_t k = 0; k < e.size(); ++k)
      if (k != but && shape(*e[k]) != shapes[k]) {
        sim::violation("aliasing", what + ": another expression changed\n" + shapes[k] + "\n" + shape(*e[k]));
      }
  }
  void check_pairs() {
    for (std::size_t i = 0; i < e.size(); ++i)
      for (std::size_t j = 0; j < i; ++j) {
        const bool same = shapes[i] == shapes[j];
        const bool ok = (*e[i] == *e[j]) == same && (*e[j] == *e[i]) == same && (!same || e[i]->hash_value() == e[j]->hash_value()) &&
                        !((*e[i] < *e[j]) && (*e[j] < *e[i]));
            SIM_CHECK("equality", ok, "equality, order or hash of\n" + shapes[i] + "\n" + shapes[j]);
      }
  }
  // each index at most twice in a term, once in a tensor
  bool wellformed(const ref::IR& x) {
    std::set<int> ext;
    for (int i : g.ext()) ext.insert(i);
    std::optional<std::set<int>> free;
    for (auto& t : x.terms) {
      std::map<int, int> n;
      std::set<std::pair<int, int>> slots;  // of one dummy: a bra and a ket, or two aux
      for (auto& f : t.facs) {
        int slot = 0;
        std::set<int> here;
        auto see = [&](const ref::IdxRef& r) {
          ++n[r.id];
          return here.insert(r.id).second && slots.insert({r.id, slot == 2 ? 2 + n[r.id] : slot}).second;
        };
        for (auto* v : {&f.bra, &f.ket, &f.aux}) {
          for (auto& r : *v)
            if (!see(r)) return false;
          ++slot;
        }
        for (auto& o : f.ops) {
          slot = o.create ? 1 : 0;
          if (!see(o.idx)) return false;
        }
      }
      std::set<int> fr;
      for (auto& [i, c] : n) {
        if (c > 2 || (ext.count(i) ? c != 1 : c != 2)) return false;
        if (slots.count({i, 3}) + slots.count({i, 4}) == 1 && c == 2) return false;
        if (c == 1) fr.insert(i);
      }
      if (free && *free != fr) return false;
      free = fr;
    }
    return true;
  }

  std::vector<std::size_t> path(const ExprPtr& x, bool to_leaf) {
    std::vector<std::size_t> r;
    const Expr* p = x.get();
    while (!p->is_atom() && (to_leaf || sim::chance(60))) {
      r.push_back(static_cast<std::size_t>(sim::pick(static_cast<int>(p->size()))));
      p = (static_cast<const Expr&>(*p)).at(r.back()).get();
    }
    return r;
  }
  // value of x with the part at the path replaced
  ref::IR with(const Expr& x, const std::vector<std::size_t>& path, std::size_t d, const ref::IR& part) {
    if (d == path.size()) return part;
    ref::IR r;
    if (x.is<Sum>()) {
      for (std::size_t k = 0; k < x.size(); ++k)
        r = r + (k == path[d] ? with(*x.at(k), path, d + 1, part) : ref::IR{m.terms(*x.at(k))});
      return r;
    }
    r.terms.push_back({m.scalar(x.as<Product>().scalar()), {}});
    for (std::size_t k = 0; k < x.size(); ++k) r = r * (k == path[d] ? with(*x.at(k), path, d + 1, part) : ref::IR{m.terms(*x.at(k))});
    return r;
  }
  static ExprPtr& at(ExprPtr& x, const std::vector<std::size_t>& path) {
    ExprPtr* p = &x;
    for (auto k : path) switch (sim::pick(3)) {
        case 0: p = &(*p)->at(k); break;
        case 1: p = &(**p)[k]; break;
        default: p = &*((*p)->begin() + static_cast<std::ptrdiff_t>(k)); break;
      }
    return *p;
  }
  Index similar(const Index& i) { return g.fresh(std::wstring(i.space().base_key())); }

  void step();
};

enum Edit { ADD_IN, SUB_IN, MUL_IN, ADD, SUB, MUL, NCMUL, APPEND, PREPEND, SCALE, ADJ, ADJ_COPY, REPLACE, LEAF, QUERY, CLONE, REWRITE, TAKE, VISIT, NEDITS };
const char* const edit_name[] = {"+=", "-=", "*=", "+", "-", "*", "^", "append", "prepend", "scale", "adjoint", "adjoint()", "replace", "leaf", "query", "clone", "rewrite", "take_n", "visit"};

void Pool::step() {
  const std::size_t k = static_cast<std::size_t>(sim::pick(static_cast<int>(e.size())));
  std::size_t o = static_cast<std::size_t>(sim::pick(static_cast<int>(e.size())));
  if (sim::chance(10)) o = k;
  ExprPtr& x = e[k];
  const auto before = ir(x), other = ir(e[o]);
  const auto old = remade(*x);
  // the operand: another expression, itself, a part of either, a fresh one
  ExprPtr y = e[o];
  if (sim::chance(20)) {
    auto p = path(y, false);
    const Expr* q = y.get();
    ExprPtr part = y;
    for (auto i : p) {
      part = static_cast<const Expr&>(*q).at(i);
      q = part.get();
    }
    y = part;
  } else if (sim::chance(15))
    y = make();
  const auto yv = ir(y);
  const auto yshape = shape(*y);
  const bool y_in_x = o == k;
  int op = sim::pick(NEDITS);
  if (op == APPEND || op == PREPEND) {
    if (!x->is<Product>() && !x->is<Sum>()) op = MUL_IN;
  } else if (op == TAKE && !x->is<Sum>())
    op = ADD_IN;
  else if ((op == REPLACE || op == VISIT) && (x->is_atom() || !old))
    op = ADJ;
  if (op == SCALE && !x->is<Product>()) op = MUL;
  if (op == LEAF && !old) op = QUERY;
  if ((op == ADD_IN || op == ADD || op == SUB || op == SUB_IN || op == APPEND || op == PREPEND) && before.terms.size() + yv.terms.size() > 24) op = CLONE;
  if ((op == MUL_IN || op == MUL || op == NCMUL || op == APPEND || op == PREPEND || op == REPLACE || op == VISIT) &&
      (before.terms.size() * yv.terms.size() > 24 || (!before.terms.empty() && !yv.terms.empty() && before.terms[0].facs.size() + yv.terms[0].facs.size() > 8)))
    op = QUERY;
  std::string what = std::string(edit_name[op]) + " " + std::to_string(k) + " <- " + yshape;
  what = "[" + std::to_string(sim::current_tid()) + "] " + what;
  sim::note(what + "\n   onto " + shapes[k]);
  sim::event(what);
  std::optional<ref::IR> want;
  bool in_place = true;  // may a failure leave x half changed?
  std::string extra;
  // anything cached?
  if (sim::chance(60)) (void)x->hash_value();
  if (sim::chance(30)) (void)y->hash_value();
  bool failed = false;
  try {
    sim::FaultWindow fw;
    switch (op) {
      case ADD_IN:
        want = before + yv;
        x += y;
        break;
      case SUB_IN:
        want = before + scaled(yv, ref::num(-1));
        x -= y;
        break;
      case MUL_IN:
        want = before * yv;
        x *= y;
        break;
      case ADD:
      case SUB:
      case MUL:
      case NCMUL: {
        want = op == ADD ? before + yv : op == SUB ? before + scaled(yv, ref::num(-1)) : before * yv;
        in_place = false;
        auto r = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x ^ y;
        x = r;
        break;
      }
      case APPEND:
      case PREPEND: {
        if (x->is<Sum>()) {
          want = before + yv;
          if (op == APPEND)
            x->as<Sum>().append(y);
          else
            x->as<Sum>().prepend(y);
        } else {
          static const Product::Flatten fl[] = {Product::Flatten::Once, Product::Flatten::Yes, Product::Flatten::No};
          auto f = fl[sim::pick(3)];
          const auto c = random_scalar();
          want = scaled(op == APPEND ? before * yv : yv * before, m.scalar(c));
          if (op == APPEND)
            x->as<Product>().append(c, y, f);
          else
            x->as<Product>().prepend(c, y, f);
        }
        break;
      }
      case SCALE: {
        const auto c = random_scalar();
        want = scaled(before, m.scalar(c));
        x->as<Product>().scale(c);
        break;
      }
      case ADJ:
        want = adjoint(before);
        x->adjoint();
        break;
      case ADJ_COPY: {
        want = adjoint(before);
        in_place = false;
        auto r = sequant::adjoint(x);
        if (shape(*x) != shapes[k]) sim::violation("aliasing", "adjoint() changed its argument");
        x = r;
        break;
      }
      case REPLACE: {
        auto p = path(x, false);
        if (p.empty()) p.push_back(0);
        want = with(*x, p, 0, yv);
        auto copy = y->clone();
        at(x, p) = copy;
        break;
      }
      case LEAF: {
        auto p = path(x, true);
        ExprPtr& l = at(x, p);
        const Expr& c = *l;
        const auto lv = ir(l);
        if (c.is<Constant>()) {
          const auto s = random_scalar();
          switch (sim::pick(4)) {
            case 0: want = scaled(lv, m.scalar(s)), *l *= Constant(s); break;
            case 1: want = lv + ref::IR{{{m.scalar(s), {}}}}, *l += Constant(s); break;
            case 2: want = lv + ref::IR{{{m.scalar(-s), {}}}}, *l -= Constant(s); break;
            default: want = adjoint(lv), l->adjoint();
          }
        } else if (c.is<Variable>()) {
          if (sim::chance(50)) {
            want = adjoint(lv);
            l->as<Variable>().conjugate();
          } else {
            const bool conj = c.as<Variable>().conjugated();
            auto v = ex<Variable>(L"s");
            if (conj) v->as<Variable>().conjugate();
            want = ir(v);
            l->as<Variable>().set_label(L"s");
          }
        } else if (c.is<Power>()) {
          auto& pw = l->as<Power>();
          if (sim::chance(50)) {
            want = adjoint(lv);
            pw.conjugate();
          } else {
            auto b = sim::chance(50) ? l->clone() : pw.base()->clone();
            if (b->is<Variable>() && pw.conjugated()) b->adjoint();
            if (b->is<Constant>() && pw.conjugated())
              want = lv;
            else {
              want = lv * ir(b);
              *l *= *b;
            }
          }
        } else if (c.is<Tensor>()) {
          auto& t = l->as<Tensor>();
          auto f = lv.terms[0].facs[0];
          const int what2 = sim::pick(6);
          extra = std::to_string(what2);
          if (what2 == 0) {
            const auto lab = std::wstring(t.label());
            const bool adj = !lab.empty() && lab.back() == sequant::adjoint_label;
            f.label = ref::hash("q");
            t.set_label(adj ? std::wstring(L"q") + sequant::adjoint_label : L"q");
            if (f.kind == ref::DELTA) f.kind = ref::TENSOR;
          } else if (what2 <= 3) {
            // other indices in one bundle, a different number of them at times
            container::svector<Index> v;
            auto& slots = what2 == 1 ? f.bra : what2 == 2 ? f.ket : f.aux;
            auto fill = [&](const auto& r) {
              for (auto& i : r) v.push_back(sim::chance(50) && i.nonnull() ? similar(i) : i);
            };
            if (what2 == 1) fill(t.bra());
            if (what2 == 2) fill(t.ket());
            if (what2 == 3) fill(t.aux());
            if (t.symmetry() != Symmetry::Nonsymm && what2 != 3 && sim::chance(30)) {
              if (!v.empty() && sim::chance(50))
                v.pop_back();
              else if (v.size() < 3)
                v.push_back(g.fresh());
            }
            slots.clear();
            for (auto& i : v) slots.push_back(m.ref(i));
            if (what2 == 1) t.set_bra(v);
            if (what2 == 2) t.set_ket(v);
            if (what2 == 3) t.set_aux(v);
          } else if (what2 == 4) {
            f = adjoint(f);
            t.adjoint();
          } else {
            container::map<Index, Index> map;
            std::map<int, int> ids;
            for (auto& i : t.const_indices())
              if (sim::chance(60) && !map.count(i)) {
                auto j = similar(i);
                map.emplace(i, j);
                ids[m.id(i)] = m.id(j);
                if (sim::chance(30)) map.emplace(j, i), ids[m.id(j)] = m.id(i);
              }
            f = renamed(ref::IR{{{ref::num(1), {f}}}}, ids).terms[0].facs[0];
            t.transform_indices(map);
            t.reset_tags();
          }
          want = ref::IR{{{ref::num(1), {f}}}};
        } else if (c.is<FNOperator>()) {
          auto& n = l->as<FNOperator>();
          auto f = lv.terms[0].facs[0];
          switch (sim::pick(4)) {
            case 0:
              f = adjoint(f);
              n.adjoint();
              break;
            case 1: {
              container::map<Index, Index> map;
              std::map<int, int> ids;
              for (auto& q : n)
                if (sim::chance(60) && !map.count(q.index())) {
                  auto j = similar(q.index());
                  map.emplace(q.index(), j);
                  ids[m.id(q.index())] = m.id(j);
                }
              f = renamed(ref::IR{{{ref::num(1), {f}}}}, ids).terms[0].facs[0];
              if (sim::chance(50)) (void)n.hug();
              n.transform_indices(map);
              for (auto& q : n) q.index().reset_tag();
              break;
            }
            case 2: {
              if (n.empty()) break;
              const int pos = sim::pick(static_cast<int>(n.size()));
              f.ops.erase(f.ops.begin() + pos);
              if (sim::chance(50)) (void)n.hug();
              n.erase(n.begin() + pos);
              extra = "erase";
              break;
            }
            default: {
              // a creator among the creators, an annihilator among the annihilators
              const bool create = sim::chance(50);
              const int nc = static_cast<int>(n.ncreators()), pos = create ? sim::range(0, nc) : sim::range(nc, static_cast<int>(n.size()));
              if (n.size() >= 5) break;
              auto i = g.fresh();
              FOp q(i, create ? Action::Create : Action::Annihilate);
              f.ops.insert(f.ops.begin() + pos, {m.ref(i), create});
              if (sim::chance(50)) (void)n.hug();
              n.insert(n.begin() + pos, q);
              extra = "insert";
            }
          }
          want = ref::IR{{{ref::num(1), {f}}}};
        } else
          want = lv;
        if (want) want = with(*old, p, 0, *want);
        break;
      }
      case QUERY:
        want = before;
        (void)x->hash_value();
        (void)x->is_cnumber();
        (void)latex(*x);
        (void)(*x == *y);
        (void)(*x < *y);
        for (auto& s : *x) (void)s->hash_value();
        break;
      case CLONE: {
        // the copy is edited, the original must not notice
        want = before;
        in_place = false;
        if (sim::chance(40) && (x->is<Sum>() || x->is<Product>())) {
          // a copy shares the parts, but not what is added to it
          const auto s = shape(*x);
          ExprPtr c = x->is<Sum>() ? ExprPtr(std::make_shared<Sum>(x->as<Sum>())) : ExprPtr(std::make_shared<Product>(x->as<Product>()));
          ref::IR cw;
          if (x->is<Sum>())
            c += y, cw = before + yv;
          else
            c *= y, cw = before * yv;
          if (shape(*x) != s) sim::violation("aliasing", "editing a copy changed the original\n" + s + "\n" + shape(*x));
          sim::NoPreempt np;
          check_value(cw, c, "copy edited by " + yshape);
          check_consistent(c, "edited copy");
        }
        auto r = x->clone();
        if (sim::chance(50)) {
          const auto s = shape(*x);
          r->adjoint();
          if (shape(*x) != s) sim::violation("aliasing", "editing a clone changed the original");
          r->adjoint();
        }
        x = r;
        break;
      }
      case REWRITE: {
        want = before;
        if (!wellformed(before)) break;
        if (ref::cost(before, m.indices, g.ext()) > 50000) break;
        const int how = sim::pick(6);
        extra = std::to_string(how);
        in_place = true;
        switch (how) {
          case 0: canonicalize(x); break;
          case 1: expand(x); break;
          case 2: simplify(x); break;
          case 3: flatten(x); break;
          case 4: rapid_simplify(x); break;
          default: non_canon_simplify(x); break;
        }
        break;
      }
      case TAKE: {
        auto& s = x->as<Sum>();
        const int n = static_cast<int>(s.size()), from = sim::range(0, n), cnt = sim::range(0, n);
        want = ref::IR{};
        for (int i = from; i < std::min(n, from + cnt); ++i) want = *want + ref::IR{m.terms(*s.summand(static_cast<std::size_t>(i)))};
        in_place = false;
        auto r = s.take_n(static_cast<std::size_t>(from), static_cast<std::size_t>(cnt));
        x = r;
        break;
      }
      case VISIT: {
        // every variable becomes y
        auto label = [](const ExprPtr& v) { return v->is<Variable>() && v->as<Variable>().label() == L"v"; };
        std::function<ref::IR(const Expr&)> subst = [&](const Expr& q) -> ref::IR {
          ref::IR r;
          if (q.is<Sum>()) {
            for (auto& s : static_cast<const Expr&>(q)) r = r + (label(s) ? yv : subst(*s));
            return r;
          }
          if (q.is<Product>()) {
            r.terms.push_back({m.scalar(q.as<Product>().scalar()), {}});
            for (auto& s : static_cast<const Expr&>(q)) r = r * (label(s) ? yv : subst(*s));
            return r;
          }
          return {m.terms(q)};
        };
        want = subst(*old);
        auto copy = y->clone();
        x->visit(
            [&](ExprPtr& s) {
              if (label(s)) s = copy->clone();
            },
            sim::chance(50));
        break;
      }
    }
  } catch (std::bad_alloc&) {
    failed = true;
  }
  sim::NoPreempt np;
  what += " " + extra;
  sim::note(failed ? "   failed" : "   = " + shape(*x));
  sim::probe(failed ? "failed" : edit_name[op]);
  if (failed) {
    if (!in_place) check_value(before, x, what + " failed, but changed");
    check_consistent(x, what + " (failed)");
    if (!y_in_x && shape(*y) != yshape) sim::violation("aliasing", what + " (failed): the operand changed");
    check_others(k, what + " (failed)");
    x = old ? old : make();
  } else {
    if (!y_in_x && shape(*y) != yshape) {
      sim::violation("aliasing", what + ": the operand changed");
    }
    check_value(*want, x, what);
    check_consistent(x, what);
    check_others(k, what);
  }
  shapes[k] = shape(*x);
  if (ir(x).terms.size() > 24) {
    x = make();
    shapes[k] = shape(*x);
  }
  if (sim::chance(15)) {
    // two slots with equal expressions, made independently of each other
    if (auto r = remade(*x); r && o != k) e[o] = r, shapes[o] = shape(*r);
  }
  check_pairs();
}
}  // namespace

SIM_SCENARIO(edits) {
  program_setup();
  set_default_context(Context({.index_space_registry_shared_ptr = make_registry(),
                               .vacuum = Vacuum::SingleProduct,
                               .metric = IndexSpaceMetric::Unit,
                               .spbasis = SPBasis::Spinor,
                               .first_dummy_index_ordinal = 100}));
  sim::watch_races(true);
  sim::watch_uaf(true);
  set_num_threads(sim::range(1, 2));
  const int nt = sim::chance(70) ? 1 : sim::range(2, 3);
  std::vector<std::unique_ptr<Pool>> pools;
  for (int t = 0; t < nt; ++t) pools.push_back(std::make_unique<Pool>(1));
  if (sim::chance(40)) sim::arm(sim::F_ALLOC, 1, 1 << sim::range(5, 11), sim::range(1, 3));
  sim::exhaustion_may_terminate(true);
  const int steps = sim::range(3, nt == 1 ? 24 : 8);
  auto run = [&](int t) {
    for (int s = 0; s < steps; ++s)
      if (sim::op_enabled(t * 100 + s)) pools[static_cast<std::size_t>(t)]->step();
  };
  if (nt == 1)
    run(0);
  else {
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back(run, t);
    for (auto& t : th) t.join();
  }
  sim::probe("done");
}
