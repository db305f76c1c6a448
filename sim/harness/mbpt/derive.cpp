// C09: expectation values, similarity transformations and coupled-cluster
// equations derived at the operator level, against exact operator algebra in a
// small Fock space.
#include "harness/common/gen.hpp"

#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/models/cc.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>

using namespace simx;
using namespace sequant::mbpt;

namespace {
enum Reg { MIN_SR, SR, MIN_MR, MR };

// what an operator is, independently of the library
struct OpD {
  std::string label;
  unsigned cre_mask = 0, ann_mask = 0;
  int nc = 0, na = 0;
  enum { DEFAULT, IMPLICIT, SQRT } norm = DEFAULT;
  bool general = false;  // matrix elements of a Hermitian operator
  bool bare = false;     // ã: no tensor, fixed indices
  bool projector = false;
};

struct N;
using NP = std::shared_ptr<N>;
struct N {
  enum { OP, NUM, PROD, SUM } kind;
  int op = -1;
  bool adj = false;
  ref::F2 c{};
  std::vector<NP> kids;
};
NP num(ref::F2 c) { return std::make_shared<N>(N{N::NUM, -1, false, c, {}}); }
NP rat(long a, long b = 1) { return num(ref::num(a) * ref::inv(ref::num(b))); }
NP prod(std::vector<NP> k) { return std::make_shared<N>(N{N::PROD, -1, false, {}, std::move(k)}); }
NP sum(std::vector<NP> k) { return std::make_shared<N>(N{N::SUM, -1, false, {}, std::move(k)}); }
NP operator-(NP a, NP b) { return sum({a, prod({rat(-1), b})}); }
NP operator+(NP a, NP b) { return sum({a, b}); }
NP operator*(NP a, NP b) { return prod({a, b}); }
NP comm(NP a, NP b) { return a * b - b * a; }
NP dagger(const NP& n) {
  auto r = std::make_shared<N>(*n);
  for (auto& k : r->kids) k = dagger(k);
  if (n->kind == N::PROD) std::reverse(r->kids.begin(), r->kids.end());
  if (n->kind == N::OP) r->adj = !r->adj;
  if (n->kind == N::NUM) r->c = ref::conj(r->c);
  return r;
}
NP bch_terms(NP a, NP b, int rank) {
  std::vector<NP> s{a};
  NP k = a;
  for (int r = 1; r <= rank; ++r) {
    k = prod({rat(1, r), comm(k, b)});
    s.push_back(k);
  }
  return sum(s);
}

/// the library's expression and what it means
struct Both {
  ExprPtr e;
  NP n;
};

struct World {
  Reg reg;
  bool sf;
  Model m;
  std::vector<OpD> ops;
  std::map<std::string, int> by_key;
  std::map<int, int> ext;  // ids of the free indices -> orbitals
  std::map<std::pair<int, int>, std::map<ref::Value::key_type, ref::Value>> columns;
  ref::Value refstate;  // multireference
  ref::F2 refnorm{};
  unsigned hole = 0, particle = 0, complete = 0;
  int rank_max = 2;
  ref::BraKet bk_general = ref::BK_CONJ;

  static std::vector<Model::Base> bases(Reg r, bool sf) {
    // orbitals: i, a always; the rest small
    switch (r) {
      case MIN_SR:
        return {{1, sf ? 1 : sim::range(1, 2), true}, {2, sf ? sim::range(1, 2) : sim::range(1, 2), false}};
      case SR: {
        const int o = sim::pick(2);
        return {{1, o, true}, {2, o || sf ? 1 : sim::range(1, 2), true}, {4, sf ? 1 : sim::range(1, 2), false}, {8, sf ? 0 : sim::pick(2), false}};
      }
      case MIN_MR:
        return {{1, 1, true}, {2, sf ? 1 : sim::range(1, 2), false}, {4, 1, false}};
      default:
        return {{1, sf ? 0 : sim::pick(2), true}, {2, 1, true}, {4, sf ? 1 : sim::range(1, 2), false}, {8, 1, false}, {16, 0, false}};
    }
  }
  World(Reg r, bool spinfree) : reg(r), sf(spinfree), m(bases(r, spinfree)) {
    m.spinfree = sf;
    auto& b = m.bits;
    for (auto& [bit, mask] : b) complete |= mask;
    switch (r) {
      case MIN_SR: hole = b[0].second, particle = b[1].second; break;
      case SR: hole = b[1].second, particle = b[2].second; break;
      case MIN_MR: hole = b[0].second | b[1].second, particle = b[1].second | b[2].second; break;
      case MR: hole = b[1].second | b[2].second, particle = b[2].second | b[3].second; break;
    }
    std::shared_ptr<IndexSpaceRegistry> isr;
    switch (r) {
      case MIN_SR: isr = make_min_sr_spaces(); break;
      case SR: isr = make_sr_spaces(); break;
      case MIN_MR: isr = make_min_mr_spaces(); break;
      case MR: isr = make_mr_spaces(); break;
    }
    set_default_context(sequant::Context({.index_space_registry_shared_ptr = isr,
                         .vacuum = Vacuum::SingleProduct,
                         .metric = IndexSpaceMetric::Unit,
                         .spbasis = sf ? SPBasis::Spinfree : SPBasis::Spinor,
                         .first_dummy_index_ordinal = 100}));
    set_default_mbpt_context(mbpt::Context({.csv = mbpt::CSV::No, .op_registry_ptr = mbpt::make_legacy_registry()}));
    if (multi()) make_refstate();
    m.basis.custom = [this](std::uint64_t l, const std::vector<int>& bra, const std::vector<int>& ket, ref::F2& v) { return gamma(l, bra, ket, v); };
  }
  bool conserving() const { return sf || multi(); }
  bool multi() const { return reg == MIN_MR || reg == MR; }
  int nso() const { return (sf ? 2 : 1) * m.basis.n; }
  using State = ref::Value::key_type;
  State state(unsigned bits) const {
    State s(static_cast<std::size_t>(m.basis.n) * 2 + 1, 0);
    for (int o = 0; o < nso(); ++o) s[o] = bits >> o & 1;
    return s;
  }
  unsigned vac_bits() const {
    unsigned v = 0;
    for (int o = 0; o < m.basis.n; ++o)
      if (m.basis.occ >> o & 1) v |= sf ? 3u << (2 * o) : 1u << o;
    return v;
  }
  unsigned spin_mask(unsigned orbs) const {
    unsigned v = 0;
    for (int o = 0; o < m.basis.n; ++o)
      if (orbs >> o & 1) v |= sf ? 3u << (2 * o) : 1u << o;
    return v;
  }
  // core occupied, active orbitals with a fixed number of electrons, rest empty
  void make_refstate() {
    const unsigned act = spin_mask(hole & particle), core = vac_bits();
    const int n = std::popcount(act), k = sim::range(n > 1 ? 1 : 0, n > 1 ? n - 1 : n);
    // spin-free RDMs describe a state with as many electrons of either spin
    for (unsigned s = 0; s < 1u << nso(); ++s)
      if ((s & ~act) == core && std::popcount(s & act) == k) {
        const auto c = ref::random_value(sim::rnd());
        refstate[state(s)] = c;
        refnorm = refnorm + c * ref::conj(c);
      }
  }
  ref::F2 expect(const ref::Value& v) const {
    ref::F2 r{};
    for (auto& [s, c] : refstate) {
      auto it = v.find(s);
      if (it != v.end()) r = r + ref::conj(c) * it->second;
    }
    return r * ref::inv(refnorm);
  }
  bool gamma(std::uint64_t l, const std::vector<int>& bra, const std::vector<int>& ket, ref::F2& v) {
    static const auto h1 = ref::hash("γ"), h2 = ref::hash("Γ");
    if (l != h1 && l != h2) return false;
    static std::map<std::pair<std::vector<int>, std::vector<int>>, ref::F2> cache;
    auto [it, fresh] = cache.emplace(std::make_pair(bra, ket), ref::F2{});
    if (fresh) {
      ref::IR ir;
      ref::Fac f;
      f.kind = ref::NOP_F;
      f.physical = false;
      f.spinfree = sf;
      std::map<int, int> a;
      ref::Indices ind;
      auto idx = [&](int orb) {
        const int id = static_cast<int>(ind.space.size());
        ind.space.push_back({1u << orb});
        a[id] = orb;
        return ref::IdxRef{id, {}};
      };
      for (auto o : ket) f.ops.push_back({idx(o), true});
      for (auto i = bra.size(); i-- > 0;) f.ops.push_back({idx(bra[i]), false});
      ir.terms.push_back({ref::num(1), {f}});
      ref::F2 r{};
      ref::Basis plain = m.basis;
      plain.custom = nullptr;
      for (auto& [s, c] : refstate) {
        ref::Eval ev{plain, ind, a, -1, false, sf, s};
        for (auto& [s2, c2] : ev.value(ir)) {
          auto q = refstate.find(s2);
          if (q != refstate.end()) r = r + ref::conj(q->second) * c2 * c;
        }
      }
      it->second = r * ref::inv(refnorm);
    }
    v = it->second;
    return true;
  }
  // ---- operators
  long fact(int n) const { return n < 2 ? 1 : n * fact(n - 1); }
  ref::IR ir(const OpD& d) {
    ref::Term t{ref::num(1), {}};
    std::vector<ref::IdxRef> c, a;
    auto fresh = [&](unsigned mask, int k) {
      if (d.bare) {
        const Index i(get_complete_space(Spin::any), k);
        return m.ref(i);
      }
      m.indices.space.push_back({mask});
      return ref::IdxRef{static_cast<int>(m.indices.space.size()) - 1, {}};
    };
    for (int k = 0; k < d.nc; ++k) c.push_back(fresh(d.cre_mask, k + 1));
    for (int k = 0; k < d.na; ++k) a.push_back(fresh(d.ann_mask, d.nc + k + 1));
    if (!d.bare) {
      const long mult = sf ? fact(d.nc) : fact(d.nc) * fact(d.na);
      if (d.norm == OpD::DEFAULT) t.coef = ref::inv(ref::num(mult));
      if (d.norm == OpD::SQRT) {
        ref::F2 x;
        if (!ref::sqrt_int(static_cast<unsigned long>(mult), x)) sim::skip("irrational normalization");
        t.coef = ref::inv(x);
      }
      ref::Fac f;
      f.kind = ref::TENSOR;
      f.label = ref::hash(d.label);
      f.bra = c, f.ket = a;
      f.symm = sf ? ref::NONSYMM : ref::ANTISYMM;
      f.bk = d.general ? bk_general : ref::BK_NONSYMM;
      t.facs.push_back(f);
    }
    ref::Fac n;
    n.kind = ref::NOP_F;
    n.physical = false;
    n.spinfree = sf;
    for (auto& i : c) n.ops.push_back({i, true});
    for (auto i = a.size(); i-- > 0;) n.ops.push_back({a[i], false});
    t.facs.push_back(n);
    return {{t}};
  }
  Both op(ExprPtr e, OpD d) {
    const std::string key = World::key(e->as<op_t>());
    auto it = by_key.find(key);
    if (it == by_key.end()) {
      it = by_key.emplace(key, static_cast<int>(ops.size())).first;
      ops.push_back(d);
    }
    auto n = std::make_shared<N>();
    n->kind = N::OP;
    n->op = it->second;
    return {e, n};
  }
  static std::string sup(std::string l, int order) { return l + (order == 1 ? "¹" : order == 2 ? "²" : ""); }
  Both one_h(int k) { return op(h(k), {k == 1 ? "f" : "g", complete, complete, k, k, OpD::DEFAULT, true}); }
  Both theta(int k) { return op(θ(k), {"θ", complete, complete, k, k, OpD::DEFAULT, true}); }
  Both one_t(int k) { return op(t(k), {"t", particle, hole, k, k}); }
  Both one_l(int k) { return op(λ(k), {"λ", hole, particle, k, k}); }
  Both one_R(int np, int nh, bool sq) {
    return op(r(nₚ(np), nₕ(nh), sq ? Normalization::SquareRoot : Normalization::Default),
              {"R", particle, hole, np, nh, sq ? OpD::SQRT : OpD::DEFAULT});
  }
  Both one_L(int np, int nh, bool sq) {
    return op(l(nₚ(np), nₕ(nh), sq ? Normalization::SquareRoot : Normalization::Default),
              {"L", hole, particle, nh, np, sq ? OpD::SQRT : OpD::DEFAULT});
  }
  Both proj(int np, int nh, bool sq = false) {  // <np,nh|
    auto norm = sq ? std::optional(Normalization::SquareRoot) : std::nullopt;
    return op(P(nₚ(np), nₕ(nh), norm), {sf ? "Ŝ" : "Â", np > 0 || nh > 0 ? hole : particle, np > 0 || nh > 0 ? particle : hole,
                                        std::abs(np > 0 || nh > 0 ? nh : np), std::abs(np > 0 || nh > 0 ? np : nh),
                                        sq ? OpD::SQRT : OpD::IMPLICIT, true, false, true});
  }
  Both one_hp(int k) { return op(Hʼ(k), {"h¹", complete, complete, k, k, OpD::DEFAULT, true}); }
  Both one_tp(int k) { return op(tʼ(k), {"t¹", particle, hole, k, k}); }
  Both one_lp(int k) { return op(λʼ(k), {"λ¹", hole, particle, k, k}); }
  Both repl(int k) { return op(ã(k), {"ã", complete, complete, k, k, OpD::IMPLICIT, false, true}); }
  Both Hm() {
    auto a = one_h(1), b = one_h(2);
    return {H(), sum({a.n, b.n})};
  }
  NP Tn(int n, bool skip1) {
    std::vector<NP> k;
    for (int r = skip1 ? 2 : 1; r <= n; ++r) k.push_back(one_t(r).n);
    return sum(k);
  }
  NP Ln(int n, bool skip1) {
    std::vector<NP> k;
    for (int r = skip1 ? 2 : 1; r <= n; ++r) k.push_back(one_l(r).n);
    return sum(k);
  }
  /// names an operator of this world; some have no LaTeX form
  static std::string key(const op_t& o) {
    std::string k = toUtf8(std::wstring(o.label()));
    auto q = o();
    for (std::size_t i = 0; i < q.size(); ++i) k += " " + std::to_string(q[i].lower()) + "," + std::to_string(q[i].upper());
    if (o.normalization()) k += " n" + std::to_string(static_cast<int>(*o.normalization()));
    return k;
  }
  static std::string show(const ExprPtr& e) {
    if (e->is<op_t>()) return "[" + key(e->as<op_t>()) + "]";
    if (e->is<Product>()) {
      std::string r = toUtf8(Constant(e->as<Product>().scalar()).to_latex());
      for (auto& f : e->as<Product>().factors()) r += " " + show(f);
      return r;
    }
    if (e->is<Sum>()) {
      std::string r = "(";
      for (auto& f : e->as<Sum>().summands()) r += (r.size() > 1 ? "\n + " : "") + show(f);
      return r + ")";
    }
    return toUtf8(e->to_latex());
  }
  // what the library's operator-level expression means
  NP meaning(const ExprPtr& e) {
    if (e->is<Constant>()) return num(m.scalar(e->as<Constant>().value()));
    if (e->is<Variable>()) {
      auto v = m.terms(*e);
      auto x = ref::random_value(ref::mix(m.basis.seed, v[0].facs[0].label));
      return num(v[0].facs[0].adj ? ref::conj(x) : x);
    }
    if (e->is<op_t>()) {
      auto it = by_key.find(key(e->as<op_t>()));
      auto n = std::make_shared<N>();
      n->kind = N::OP;
      if (it == by_key.end()) {
        auto c = e->clone();
        c->adjoint();
        it = by_key.find(key(c->as<op_t>()));
        if (it == by_key.end()) sim::violation("operator", "an operator nobody asked for: " + show(e));
        n->adj = true;
      }
      n->op = it->second;
      return n;
    }
    auto r = std::make_shared<N>();
    if (e->is<Product>()) {
      r->kind = N::PROD;
      r->kids.push_back(num(m.scalar(e->as<Product>().scalar())));
      for (auto& f : e->as<Product>().factors()) r->kids.push_back(meaning(f));
      return r;
    }
    if (e->is<Sum>()) {
      r->kind = N::SUM;
      for (auto& f : e->as<Sum>().summands()) r->kids.push_back(meaning(f));
      return r;
    }
    sim::violation("harness", "unknown operator-level expression");
  }
  // ---- operator algebra
  const ref::Value& column(int op, bool adj, const State& s) {
    auto& cols = columns[{op, adj}];
    auto it = cols.find(s);
    if (it != cols.end()) return it->second;
    if (!adj) {
      auto x = ir(ops[op]);
      ref::Eval ev{m.basis, m.indices, ext, -1, false, sf, s};
      return cols[s] = ev.value(x);
    }
    for (unsigned b = 0; b < 1u << nso(); ++b) cols[state(b)];
    for (unsigned b = 0; b < 1u << nso(); ++b) {
      const auto from = state(b);
      for (auto& [to, c] : column(op, false, from)) cols[to][from] = ref::conj(c);
    }
    return cols[s];
  }
  ref::Value apply(const NP& n, const ref::Value& v) {
    ref::Value r;
    auto add = [&](const ref::Value& w, ref::F2 c) {
      for (auto& [s, x] : w) {
        auto& y = r[s];
        y = y + c * x;
      }
    };
    switch (n->kind) {
      case N::NUM: add(v, n->c); break;
      case N::OP:
        for (auto& [s, c] : v) add(column(n->op, n->adj, s), c);
        break;
      case N::PROD:
        r = v;
        for (auto i = n->kids.size(); i-- > 0;) r = apply(n->kids[i], r);
        break;
      case N::SUM:
        for (auto& k : n->kids) add(apply(k, v), ref::num(1));
    }
    for (auto it = r.begin(); it != r.end();) it = it->second == ref::F2{} ? r.erase(it) : std::next(it);
    return r;
  }
  ref::F2 vacuum_value(const NP& n) {
    const auto v = state(vac_bits());
    auto r = apply(n, {{v, ref::num(1)}});
    auto it = r.find(v);
    return it == r.end() ? ref::F2{} : it->second;
  }
  ref::F2 reference_value(const NP& n) { return multi() ? expect(apply(n, refstate)) : vacuum_value(n); }
  ref::F2 value(const ExprPtr& e) {
    auto x = m.ir(e);
    for (auto& t : x.terms)
      for (auto& f : t.facs)
        if (f.kind == ref::NOP_F || f.kind == ref::NOP_B) sim::violation("value", "an operator is left in " + text(e));
    std::vector<int> ids;
    for (auto& [k, v] : ext) ids.push_back(k);
    if (ref::cost(x, m.indices, ids) > 400000) sim::skip("result too expensive");
    ref::Eval ev{m.basis, m.indices, ext};
    auto v = ev.value(x);
    return v.empty() ? ref::F2{} : v.begin()->second;
  }
  ref::Value random_vector() {
    ref::Value v;
    for (unsigned b = 0; b < 1u << nso(); ++b) v[state(b)] = ref::random_value(sim::rnd());
    return v;
  }
  /// operator strings the sum of products consists of
  void expand(const NP& n, ref::F2 c, std::vector<std::pair<int, bool>> s, std::vector<NP> rest,
              std::vector<std::pair<ref::F2, std::vector<std::pair<int, bool>>>>& out) {
    switch (n->kind) {
      case N::NUM: c = c * n->c; break;
      case N::OP: s.push_back({n->op, n->adj}); break;
      case N::PROD: rest.insert(rest.end(), n->kids.rbegin(), n->kids.rend()); break;
      case N::SUM:
        for (auto& k : n->kids) expand(k, c, s, rest, out);
        return;
    }
    if (rest.empty()) {
      out.push_back({c, s});
      return;
    }
    auto next = rest.back();
    rest.pop_back();
    expand(next, c, std::move(s), std::move(rest), out);
  }
};

std::string show(ref::F2 v) { return "(" + std::to_string(v.re) + "," + std::to_string(v.im) + ")"; }

// runs the library's computation serially in a fork and then with several
// threads here
template <typename F>
std::vector<ExprPtr> derive(F&& compute, std::string (*print)(const ExprPtr&) = [](const ExprPtr& e) { return text(e); }) {
  auto txt = [print](const std::vector<ExprPtr>& v) {
    std::string s;
    for (auto& e : v) s += print(e) + "\n";
    return s;
  };
  const std::string serial = sim::in_fork([&] {
    set_num_threads(1);
    return txt(compute());
  });
  const int nt = sim::range(1, 4);
  set_num_threads(nt);
  std::vector<ExprPtr> result;
  std::string what;
  try {
    result = compute();
  } catch (std::exception& e) {
    what = std::string("!EXC:") + e.what();
  }
  const std::string par = what.empty() ? txt(result) : what;
  sim::event(par);
  sim::note("result with " + std::to_string(nt) + " threads\n" + par + (par == serial ? "" : "\n1 thread\n" + serial));
  if (!what.empty()) {
    SIM_CHECK("schedule", serial.rfind("!EXC:", 0) == 0, "fails only with " + std::to_string(nt) + " threads: " + what);
    sim::note(what);
    sim::skip("the library refuses this input");
  }
  if (par != serial) sim::probe("text_differs");
  return result;
}

void setup() {
  program_setup();
  sim::set_max_steps(4'000'000'000);
  TensorCanonicalizer::reset_cardinal_tensor_labels();
  TensorCanonicalizer::set_cardinal_tensor_labels(mbpt::cardinal_tensor_labels());
  sim::watch_races(true);
}

Both random_op(World& w) {
  const int rk = sim::range(1, 2);
  switch (const int c = sim::pick(w.conserving() ? 10 : 12); c == 9 && w.conserving() ? 12 : c) {
    case 0: case 1: return w.one_h(1);
    case 2: return w.one_h(2);
    case 3: case 4: return w.one_t(rk);
    case 5: return w.one_l(rk);
    case 6: return w.theta(rk);
    case 7: return sim::chance(60) ? w.proj(rk, rk, sim::chance(30)) : w.proj(-rk, -rk, sim::chance(30));
    case 8: return sim::chance(50) ? w.one_tp(rk) : w.one_hp(1);
    case 9: return w.one_R(sim::range(0, 2), sim::range(1, 2), sim::chance(40));
    case 10: return w.one_L(sim::range(1, 2), sim::range(0, 2), sim::chance(40));
    default: {
      auto b = w.one_t(rk);
      return {adjoint(b.e), dagger(b.n)};
    }
  }
}

Both times(const Both& a, const Both& b) { return {a.e * b.e, a.n * b.n}; }
Both plus(const Both& a, const Both& b) { return {a.e + b.e, a.n + b.n}; }
Both scaled(World& w, Constant::scalar_type c, const Both& b) { return {ex<Constant>(c) * b.e, prod({num(w.m.scalar(c)), b.n})}; }

Both pick_left(World& w) {
  const int rk = sim::range(1, 2);
  switch (sim::pick(w.conserving() ? 4 : 5)) {
    case 0: case 1: return w.proj(rk, rk, sim::chance(30));
    case 2: return w.one_l(rk);
    case 3: {
      auto b = w.one_t(rk);
      return {adjoint(b.e), dagger(b.n)};
    }
    default: return w.one_L(sim::range(1, 2), sim::range(0, 2), sim::chance(30));
  }
}
Both pick_mid(World& w) {
  switch (sim::pick(5)) {
    case 0: case 1: return w.one_h(1);
    case 2: case 3: return w.one_h(2);
    default: return sim::chance(50) ? w.one_hp(1) : w.theta(1);
  }
}
Both pick_right(World& w) {
  const int rk = sim::range(1, 2);
  switch (sim::pick(w.conserving() ? 4 : 5)) {
    case 0: case 1: return w.one_t(rk);
    case 2: return w.one_tp(rk);
    case 3: return w.proj(-rk, -rk, sim::chance(30));
    default: return w.one_R(sim::range(1, 2), sim::range(0, 2), sim::chance(30));
  }
}
Both random_product(World& w, int max_ops) {
  std::vector<Both> f;
  const int shape = sim::pick(10);
  auto maybe_sum = [&](auto&& pick) -> Both {
    auto b = pick(w);
    if (sim::chance(20)) b = plus(b, pick(w));
    return b;
  };
  if (shape < 7) {
    if (sim::chance(70)) f.push_back(maybe_sum(pick_left));
    f.push_back(maybe_sum(pick_mid));
    while (static_cast<int>(f.size()) < max_ops && sim::chance(65)) f.push_back(maybe_sum(pick_right));
  } else
    for (int k = sim::range(1, max_ops); k > 0; --k) f.push_back(random_op(w));
  Both r = f[0];
  for (std::size_t k = 1; k < f.size(); ++k) r = times(r, f[k]);
  if (sim::chance(40)) r = scaled(w, random_scalar(), r);
  if (sim::chance(10)) {
    auto v = ex<Variable>(L"ω");
    r = {v * r.e, w.meaning(v) * r.n};
  }
  return r;
}

void expectation(Reg reg, bool sf) {
  setup();
  World w(reg, sf);
  const bool mr = w.multi();
  const int nterms = sim::range(1, 4);
  Both x = random_product(w, mr ? 2 : 3);
  for (int k = 1; k < nterms; ++k) x = plus(x, random_product(w, mr ? 2 : 3));
  const bool vac = !mr || sim::chance(25);  // vac_av or ref_av
  const bool topology = sim::chance(70), screen = sim::chance(70);
  mbpt::OpConnections<std::wstring> connect, avoid;
  const bool constrained = vac && !sf && sim::chance(30);
  if (constrained) {
    static const wchar_t* labels[] = {L"f", L"g", L"t", L"λ", L"Â", L"R", L"L", L"h¹", L"t¹", L"θ", L"t⁺"};
    if (sim::chance(40)) connect = default_op_connections();
    const int what = sim::pick(3);
    for (int k = sim::range(0, 3); k > 0; --k) {
      std::pair<std::wstring, std::wstring> p{labels[sim::pick(11)], labels[sim::pick(11)]};
      if (what == 0) connect.push_back(p);
      if (what == 1) avoid.push_back(p);
      if (what == 2) (sim::chance(50) ? connect : avoid).push_back(p);
    }
  }
  const std::string before = World::show(x.e);
  std::string d = before + (vac ? "\nvac_av" : "\nref_av") + (topology ? " topology" : "") + (screen ? " screen" : "");
  for (auto& [a, b] : connect) d += " connect " + toUtf8(a) + "-" + toUtf8(b);
  for (auto& [a, b] : avoid) d += " avoid " + toUtf8(a) + "-" + toUtf8(b);
  sim::note("orbitals " + std::to_string(w.m.basis.n) + "\n" + d);
  auto res = derive([&] {
    mbpt::EVOptions<std::wstring> o{.connect = connect, .do_not_connect = avoid, .screen = screen, .use_topology = topology};
    return std::vector<ExprPtr>{vac ? vac_av(x.e, o) : ref_av(x.e, o)};
  });
  sim::watch_races(false);
  sim::NoPreempt np;
  SIM_CHECK("input", World::show(x.e) == before, "the expression was changed to " + World::show(x.e));
  const auto got = w.value(res[0]);
  ref::F2 want{};
  if (constrained) {
    std::vector<std::pair<ref::F2, std::vector<std::pair<int, bool>>>> terms;
    w.expand(x.n, ref::num(1), {}, {}, terms);
    for (auto& [c, s] : terms) {
      ref::IR ir{{{c, {}}}};
      ref::Constraints cons;
      std::vector<std::string> lbl;
      for (auto& [o, adj] : s) {
        auto y = w.ir(w.ops[o]);
        auto& t = y.terms[0];
        if (adj) {
          t.coef = ref::conj(t.coef);
          for (auto& f : t.facs) {
            if (f.kind == ref::NOP_F) {
              std::reverse(f.ops.begin(), f.ops.end());
              for (auto& q : f.ops) q.create = !q.create;
            } else {
              f.adj = !f.adj;
              std::swap(f.bra, f.ket);
            }
          }
        }
        ir.terms[0] = Model::mul(ir.terms[0], t);
        lbl.push_back(w.ops[o].label + (adj ? "⁺" : ""));
      }
      for (std::size_t a = 0; a < s.size(); ++a)
        for (std::size_t b = a + 1; b < s.size(); ++b) {
          for (auto& [p, q] : connect)
            if (lbl[a] == toUtf8(p) && lbl[b] == toUtf8(q)) cons.connect.push_back({(int)a, (int)b});
          for (auto& [p, q] : avoid)
            if (lbl[a] == toUtf8(p) && lbl[b] == toUtf8(q)) cons.avoid.push_back({(int)a, (int)b});
        }
      if (ref::cost(ir, w.m.indices, {}) > 3e5) sim::skip("too expensive");
      want = want + ref::contraction_value(ir, cons, w.m.basis, w.m.indices, {});
    }
    sim::probe("constrained");
  } else
    want = vac ? w.vacuum_value(x.n) : w.reference_value(x.n);
  SIM_CHECK("value", got == want, "value " + show(got) + " instead of " + show(want));
  if (!(want == ref::F2{})) sim::probe("nonzero");
}

void check_tensor_form(World& w, const Both& b) {
  auto f = b.e->as<op_t>().tensor_form();
  auto x = w.m.ir(f);
  auto v = w.random_vector();
  ref::Value got;
  for (auto& [s, c] : v) {
    ref::Eval ev{w.m.basis, w.m.indices, {}, -1, false, w.sf, s};
    for (auto& [s2, c2] : ev.value(x)) {
      auto& y = got[s2];
      y = y + c * c2;
    }
  }
  for (auto it = got.begin(); it != got.end();) it = it->second == ref::F2{} ? got.erase(it) : std::next(it);
  SIM_CHECK("tensor_form", got == w.apply(b.n, v), World::show(b.e) + " is lowered to " + text(f));
}
}  // namespace

SIM_SCENARIO(expectation_sr) { expectation(sim::chance(60) ? MIN_SR : SR, false); }
SIM_SCENARIO(expectation_sf) { expectation(sim::chance(70) ? MIN_SR : SR, true); }
SIM_SCENARIO(expectation_mr) { expectation(sim::chance(60) ? MIN_MR : MR, false); }

SIM_SCENARIO(operators) {
  setup();
  World w(static_cast<Reg>(sim::pick(4)), sim::chance(25));
  for (int k = 0; k < 6; ++k) check_tensor_form(w, random_op(w));
}

// similarity transformation and screening, checked as operators
SIM_SCENARIO(transformation) {
  setup();
  World w(static_cast<Reg>(sim::pick(4)), sim::chance(25));
  Both a, b;
  switch (sim::pick(5)) {
    case 0: a = random_op(w); break;
    case 1: a = random_product(w, 2); break;
    case 2: a = w.Hm(); break;
    case 3: {
      auto c = random_scalar();
      a = plus(Both{ex<Constant>(c), num(w.m.scalar(c))}, random_op(w));
      break;
    }
    default: a = plus(random_op(w), random_product(w, 2));
  }
  const int nb = sim::range(1, 2);
  for (int k = 0; k < nb; ++k) {
    Both x = sim::chance(70) ? w.one_t(k + 1) : sim::chance(50) ? w.one_l(k + 1) : random_op(w);
    if (sim::chance(25)) x = scaled(w, random_scalar(), x);
    b = k ? plus(b, x) : x;
  }
  const int rank = nb == 1 ? sim::range(0, 3) : sim::range(0, 2);
  const bool unitary = rank < 3 && sim::chance(30);
  const std::string before = World::show(a.e) + "\n" + World::show(b.e);
  sim::note("orbitals " + std::to_string(w.m.basis.n) + "\n" + before + "\nrank " + std::to_string(rank) + (unitary ? " unitary" : ""));
  auto res = derive([&] { return std::vector<ExprPtr>{lst(a.e, b.e, rank, {.unitary = unitary})}; },
                    [](const ExprPtr& e) { return World::show(e); });
  sim::watch_races(false);
  sim::NoPreempt np;
  SIM_CHECK("input", World::show(a.e) + "\n" + World::show(b.e) == before, "an argument was changed");
  auto v = w.random_vector();
  const auto want = w.apply(bch_terms(a.n, unitary ? b.n - dagger(b.n) : b.n, rank), v);
  SIM_CHECK("operator", w.apply(w.meaning(res[0]), v) == want, "not the transformed operator");
  if (rank > 0 && !want.empty()) sim::probe("transformed");
}

SIM_SCENARIO(screening) {
  setup();
  World w(sim::chance(50) ? MIN_SR : SR, sim::chance(25));
  Both x = random_product(w, 4);
  for (int k = sim::range(0, 3); k > 0; --k) x = plus(x, random_product(w, 4));
  const std::string before = World::show(x.e);
  sim::note("orbitals " + std::to_string(w.m.basis.n) + "\n" + before);
  auto res = derive([&] { return std::vector<ExprPtr>{screen_vac_av(x.e)}; }, [](const ExprPtr& e) { return World::show(e); });
  sim::watch_races(false);
  sim::NoPreempt np;
  SIM_CHECK("input", World::show(x.e) == before, "the expression was changed");
  const auto want = w.vacuum_value(x.n), got = w.vacuum_value(w.meaning(res[0]));
  SIM_CHECK("screen", got == want, "screening changed the vacuum expectation value from " + show(want) + " to " + show(got));
  if (!(want == ref::F2{})) sim::probe("nonzero");
  if (World::show(res[0]) != before) sim::probe("screened");
}

namespace {
void cc(bool sf) {
  setup();
  World w(sim::chance(70) ? MIN_SR : SR, sf);
  const int n = sim::chance(sf ? 10 : 15) ? 2 : 1;
  using A = CC::Ansatz;
  const bool unitary = sim::chance(n == 1 ? 20 : 5);
  const bool opt = sim::chance(n == 1 ? 0 : 30);
  std::optional<bool> skip;
  if (opt)
    ;
  else if (n > 1 && sim::chance(60))
    skip = true;
  else if (sim::chance(30))
    skip = false;
  std::optional<size_t> hrank, prank;
  if (unitary || sim::chance(25)) hrank = unitary ? (n == 1 ? sim::range(1, 2) : 1) : sim::range(1, 4);
  if (unitary || sim::chance(15)) prank = sim::range(1, 2);
  // rank 2 without these takes too long
  const bool screen = n == 2 || sim::chance(60), topology = n == 2 || sim::chance(60);
  const A ansatz = unitary ? (opt ? A::oU : A::U) : opt ? A::oT : A::T;
  const bool skip1 = opt || skip.value_or(false);
  const NP T = w.Tn(n, skip1), L = w.Ln(n, skip1), S = unitary ? T - dagger(T) : T;
  const NP one = rat(1);
  const NP H = w.Hm().n;
  auto hbar = [&](int k) { return bch_terms(H, S, k); };
  enum { ENERGY, AMPL, LAMBDA, RDM, TP, LP, EOMR, EOML };
  int what = sim::pick(8);
  if (unitary && (what == LAMBDA || what == LP || what == EOML)) what = AMPL;
  if (opt && what == LP) what = LAMBDA;
  if (n == 2 && !unitary && (what == TP || what == LP || what == EOMR || what == EOML)) hrank = sim::range(1, 2);
  if (n == 2 && unitary && what != ENERGY) what = AMPL;
  int np = n, nh = n;
  if (what == EOMR || what == EOML) {
    if (!sf && sim::chance(60)) {
      np = sim::range(0, n), nh = sim::range(0, n);
      if (np == 0 && nh == 0) nh = 1;
    }
  }
  const int r = what == RDM && n == 1 && sim::chance(25) ? 2 : 1;
  std::optional<size_t> crank;
  if ((what == RDM || what == ENERGY) && sim::chance(25)) crank = sim::range(0, 2);
  const bool explicit_p = what == AMPL && sim::chance(30);
  const int pmax = explicit_p ? sim::range(0, n) : n, pmin = explicit_p ? sim::range(0, pmax) : 0;
  const CC model(n, {.ansatz = ansatz, .skip_singles = skip, .screen = screen, .use_topology = topology, .hbar_comm_rank = hrank, .pertbar_comm_rank = prank});
  const int hr = static_cast<int>(hrank.value_or(4));
  static const char* names[] = {"energy", "t", "λ", "rdm", "tʼ", "λʼ", "eom_r", "eom_l"};
  sim::note(std::string("CC{") + std::to_string(n) + "}." + names[what] + " ansatz " + std::to_string((int)ansatz) + (skip1 ? " no singles" : "") +
            (screen ? " screen" : "") + (topology ? " topology" : "") + " hrank " + (hrank ? std::to_string(*hrank) : "-") + " prank " +
            (prank ? std::to_string(*prank) : "-") + " crank " + (crank ? std::to_string(*crank) : "-") + " np " + std::to_string(np) + " nh " + std::to_string(nh) +
            " rank " + std::to_string(r) + " p " + std::to_string(pmin) + ".." + std::to_string(pmax) + (w.reg == MIN_SR ? " min_sr" : " sr") +
            " orbitals " + std::to_string(w.m.basis.n));
  // what is expected, by position
  std::map<std::size_t, NP> want;
  // register all operators that occur before the library runs
  const NP omega = num(ref::random_value(ref::mix(w.m.basis.seed, ref::hash("ω"))));
  auto H1 = w.one_hp(1).n;
  NP Tp, Lp;
  {
    std::vector<NP> a, b;
    for (int k = 1; k <= n; ++k) a.push_back(w.one_tp(k).n), b.push_back(w.one_lp(k).n);
    Tp = sum(a), Lp = sum(b);
  }
  const NP Lamb = one + L;
  switch (what) {
    case ENERGY: want[0] = hbar(static_cast<int>(crank.value_or(hr))); break;
    case AMPL: {
      const NP h = hbar(hr);
      for (int p = pmin; p <= pmax; ++p) want[p] = p ? w.proj(p, p).n * h : h;
      break;
    }
    case LAMBDA: {
      want[0] = bch_terms(H, dagger(L), hr);
      const NP h = hbar(hr - 1);
      for (int p = 1; p <= n; ++p) want[p] = Lamb * comm(h, w.proj(-p, -p).n);
      break;
    }
    case RDM: {
      const int k = static_cast<int>(crank.value_or(unitary ? hr : std::min(2 * r, r + n)));
      const NP bar = bch_terms(w.repl(r).n, S, k);
      want[0] = unitary ? bar : Lamb * bar;
      break;
    }
    case TP: {
      const NP e = bch_terms(H1, S, static_cast<int>(prank.value_or(2))) + comm(hbar(static_cast<int>(hrank.value_or(3))), Tp);
      for (int p = 1; p <= n; ++p) {
        const NP P = w.proj(p, p).n;
        want[p] = P * e - omega * (P * w.one_tp(p).n);
      }
      break;
    }
    case LP: {
      const NP e = bch_terms(H1, S, static_cast<int>(prank.value_or(2))) + comm(hbar(3), Tp), h = hbar(hr);
      for (int p = 1; p <= n; ++p) {
        const NP P = w.proj(-p, -p).n;
        want[p] = Lamb * comm(e, P) + Lp * comm(h, P) + omega * (w.one_lp(p).n * P);
      }
      break;
    }
    default: {
      const NP h = hbar(hr);
      std::vector<NP> s;
      for (int a = np, b = nh; a >= 0 && b >= 0 && a + b > 0; --a, --b) s.push_back(what == EOMR ? w.one_R(a, b, true).n : w.one_L(a, b, true).n);
      const NP X = sum(s);
      for (int a = np, b = nh; a >= 0 && b >= 0 && a + b > 0; --a, --b)
        want[std::min(a, b)] = what == EOMR ? w.proj(a, b, true).n * comm(h, X) : X * comm(h, w.proj(-a, -b, true).n);
    }
  }
  auto res = derive([&]() -> std::vector<ExprPtr> {
    std::vector<ExprPtr> v;
    switch (what) {
      case ENERGY: v = {model.energy(crank)}; break;
      case AMPL: v = explicit_p ? model.t(pmax, pmin) : model.t(); break;
      case LAMBDA: v = model.λ(); break;
      case RDM: v = {model.rdm(r, crank)}; break;
      case TP: v = model.tʼ(); break;
      case LP: v = model.λʼ(); break;
      case EOMR: v = model.eom_r(nₚ(np), nₕ(nh)); break;
      default: v = model.eom_l(nₚ(np), nₕ(nh));
    }
    for (auto& e : v)
      if (!e) e = ex<Constant>(0);
    return v;
  });
  sim::watch_races(false);
  sim::NoPreempt nopre;
  SIM_CHECK("equations", !res.empty() && want.rbegin()->first < res.size(), "equations are missing");
  const int free = what == RDM ? 2 * r : 0;
  const int samples = free ? 8 : 1;
  for (int s = 0; s < samples; ++s) {
    if (free) {
      w.columns.clear();
      for (int k = 1; k <= free; ++k)
        w.ext[w.m.ref(Index(get_complete_space(Spin::any), k)).id] = static_cast<int>(sim::rnd() % w.m.basis.n);
    }
    for (auto& [p, n] : want) {
      const auto x = w.vacuum_value(n), got = w.value(res[p]);
      SIM_CHECK("value", got == x, std::string(names[what]) + " equation " + std::to_string(p) + " has value " + show(got) + " instead of " + show(x) + "\n" + text(res[p]));
      if (!(x == ref::F2{})) sim::probe("nonzero");
    }
  }
  sim::probe(names[what]);
}
}  // namespace
SIM_SCENARIO(coupled_cluster) { cc(false); }
SIM_SCENARIO(coupled_cluster_sf) { cc(true); }
