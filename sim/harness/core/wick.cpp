// C01: Wick's theorem preserves the value of the operator expression whatever
// the options, the number of threads and the schedule.
#include "harness/common/gen.hpp"

#include <SeQuant/core/wick.hpp>

using namespace simx;

namespace {
Context make_context(Vacuum vac, SPBasis spb) {
  return Context({.index_space_registry_shared_ptr = make_registry(),
                  .vacuum = vac,
                  .metric = IndexSpaceMetric::Unit,
                  .spbasis = spb,
                  .first_dummy_index_ordinal = 100});
}

struct Opts {
  bool full = true, topology = true, set_ext = false;
  std::vector<std::pair<int, int>> connect, avoid;
};

template <Statistics S>
ExprPtr run_wick(const ExprPtr& input, const Opts& o, const std::vector<Index>& ext, unsigned* ncontr = nullptr) {
  WickTheorem<S> w(input);
  w.full_contractions(o.full).use_topology(o.topology);
  if (o.set_ext) w.set_external_indices(ext);
  if (!o.connect.empty()) w.set_nop_connections(o.connect);
  if (!o.avoid.empty()) w.set_nop_avoided_connections(o.avoid);
  auto r = w.compute();
  if (ncontr) *ncontr = static_cast<unsigned>(w.stats().num_attempted_contractions);
  return r;
}

constexpr int MAXSLOTS = 8;

template <Statistics S>
void wick_scenario(Vacuum vac, SPBasis spb) {
  program_setup();
  sim::watch_races(true);
  const bool bose = S == Statistics::BoseEinstein;
  set_default_context(make_context(vac, spb));
  if (bose) set_default_context(make_context(vac, spb), Statistics::BoseEinstein);
  const bool sf = spb == SPBasis::Spinfree;
  Model m(vac == Vacuum::Physical ? 1 : sim::range(1, 2), sim::range(1, 2), 0);
  m.spinfree = sf;
  if (vac == Vacuum::Physical) m.basis.occ = 0;
  Gen g(m);
  Opts o;
  o.full = sim::chance(60);
  o.topology = sim::chance(o.full ? 70 : 40);
  const int nterms = sim::chance(30) ? 1 : sim::range(2, 5);
  const bool constrained = o.full && !sf && sim::chance(25);
  const int nn0 = sim::range(2, 3);

  // externals: (space, is it on a creator) all terms carry
  struct Ext {
    Index idx;
    bool cre;
  };
  std::vector<Ext> exts;
  const int next = sim::chance(50) ? 0 : sim::range(1, 3);
  for (int k = 0; k < next; ++k) exts.push_back({g.fresh(), sim::chance(50)});
  for (auto& e : exts) g.externals.push_back(e.idx);
  static const wchar_t* labels[] = {L"g", L"f", L"t", L"u", L"w"};

  // a term: list of nops; every one with tensor or not
  auto make_term = [&]() -> ExprPtr {
    const int nn = constrained ? nn0 : sim::range(1, 3);
    std::vector<ExprPtr> cnum, ops;
    int slots = 0;
    // which nop each external goes to
    std::vector<std::vector<Ext>> on(nn);
    for (auto& e : exts) on[sim::pick(nn)].push_back(e);
    for (int n = 0; n < nn; ++n) {
      std::vector<Index> c, a, tc, ta;
      int nc = sim::range(0, 2), na = sf ? nc : sim::chance(80) ? nc : sim::range(0, 2);
      if (sf && nc == 0) nc = na = 1;
      if (nc + na == 0) nc = na = 1;
      if (slots + nc + na > MAXSLOTS) nc = na = std::min({nc, na, 1});
      if (!sf && slots + nc + na > MAXSLOTS) nc = 1, na = 0;
      slots += nc + na;
      // excitation, deexcitation or general
      const int kind = sim::pick(4);
      auto space = [&](bool cre) -> std::wstring {
        if (vac == Vacuum::Physical) return sim::chance(70) ? L"p" : L"a";
        if (kind == 0) return cre ? L"a" : L"i";
        if (kind == 1) return cre ? L"i" : L"a";
        if (kind == 2) return L"p";
        static const wchar_t* all[] = {L"i", L"a", L"p"};
        return all[sim::pick(3)];
      };
      auto& mine = on[n];
      auto slot = [&](bool cre, std::vector<Index>& op, std::vector<Index>& t) {
        for (auto it = mine.begin(); it != mine.end(); ++it)
          if (it->cre == cre) {
            op.push_back(it->idx);
            mine.erase(it);
            return;
          }
        auto i = g.fresh(space(cre));
        op.push_back(i);
        t.push_back(i);
      };
      const auto bk = random_bk();
      const bool bra_cre = bk != BraKetSymmetry::Symm || sim::chance(60);  // bra pairs with creators
      for (int k = 0; k < nc; ++k) slot(true, c, tc);
      for (int k = 0; k < na; ++k) slot(false, a, ta);
      // externals that found no place go on the tensor as auxiliaries
      std::vector<Index> aux;
      for (auto& e : mine) aux.push_back(e.idx);
      if (!tc.empty() || !ta.empty() || !aux.empty()) {
        auto sym = sim::chance(70) && !sf ? Symmetry::Antisymm : Symmetry::Nonsymm;
        if (bose) sym = sim::chance(50) ? Symmetry::Symm : Symmetry::Nonsymm;
        if (tc.size() != ta.size() && sym == Symmetry::Nonsymm && sim::chance(50) && !sf && !bose) sym = Symmetry::Antisymm;
        // topology: operators of a normal operator are taken to be equivalent
        if (o.topology && !sf) sym = bose ? Symmetry::Symm : Symmetry::Antisymm;
        auto& b = bra_cre ? tc : ta;
        auto& k = bra_cre ? ta : tc;
        cnum.push_back(ex<Tensor>(labels[sim::pick(5)], bra(b), ket(k), sequant::aux(aux), sym, bk));
      }
      ops.push_back(ex<NormalOperator<S>>(cre(c), ann(a), vac));
    }
    auto p = std::make_shared<Product>();
    p->scale(random_scalar());
    for (auto& f : cnum) p->append(1, f);
    if (!o.topology && sim::chance(15)) p->append(1, ex<Variable>(L"v"));
    // c-numbers may stand anywhere
    if (sim::chance(30)) {
      auto q = std::make_shared<Product>();
      q->scale(p->scalar());
      std::size_t k = 0;
      for (auto& f : p->factors()) {
        while (k < ops.size() && sim::chance(40)) q->append(1, ops[k++]);
        q->append(1, f);
      }
      while (k < ops.size()) q->append(1, ops[k++]);
      return q;
    }
    for (auto& f : ops) p->append(1, f);
    return p;
  };
  ExprPtr expr;
  if (nterms == 1)
    expr = make_term();
  else {
    auto s = std::make_shared<Sum>();
    for (int k = 0; k < nterms; ++k) {
      if (exts.empty() && !constrained && sim::chance(12)) {
        // terms without operators
        if (sim::chance(70))
          s->append(ex<Constant>(sim::chance(50) ? random_scalar() : Constant::scalar_type(sim::range(-40, 40))));
        else
          s->append(ex<Variable>(L"v"));
      } else
        s->append(make_term());
    }
    expr = s;
  }
  if (constrained) {
    const int what = sim::pick(3);
    std::vector<std::pair<int, int>> pairs;
    for (int x = 0; x < nn0; ++x)
      for (int y = x + 1; y < nn0; ++y) pairs.push_back({x, y});
    for (auto& p : pairs) {
      if (what != 1 && sim::chance(40))
        o.connect.push_back(p);
      else if (what != 0 && sim::chance(40))
        o.avoid.push_back(p);
    }
  }
  o.set_ext = sim::chance(40);
  const auto before = g.ir(expr);
  const auto before_text = text(expr);
  const double c0 = ref::cost(before, m.indices, g.ext());
  if (c0 > 300000) sim::skip("too expensive");
  std::string d;
  d += std::string(o.full ? "full " : "partial ") + (o.topology ? "topology " : "") + (o.set_ext ? "set_ext " : "");
  for (auto& [x, y] : o.connect) d += "connect " + std::to_string(x) + std::to_string(y) + " ";
  for (auto& [x, y] : o.avoid) d += "avoid " + std::to_string(x) + std::to_string(y) + " ";
  sim::note("orbitals i=" + std::to_string(m.ni) + " a=" + std::to_string(m.na) + (sf ? " spinfree" : "") + "\n" + d + "\ninput " + before_text);

  const std::string serial = sim::in_fork([&] {
    set_num_threads(1);
    auto r = run_wick<S>(expr->clone(), o, g.externals);
    return text(r);
  });
  if (serial.rfind("!EXC:", 0) == 0) sim::probe("wick_threw");
  const int nt = sim::range(1, 4);
  set_num_threads(nt);
  ExprPtr result;
  std::string what;
  auto in = expr->clone();
  try {
    result = run_wick<S>(in, o, g.externals);
  } catch (std::exception& e) {
    what = std::string("!EXC:") + e.what();
  }
  sim::watch_races(false);
  sim::NoPreempt np;
  const std::string par = result ? text(result) : what;
  sim::event(par);
  sim::note("result " + par + "\n1 thread " + serial);
  if (!what.empty()) {
    SIM_CHECK("schedule", serial.rfind("!EXC:", 0) == 0, "fails only with " + std::to_string(nt) + " threads: " + what);
    sim::skip("the library refuses this input");
  }
  SIM_CHECK("input", text(expr) == before_text, "the expression was changed");
  const auto after = g.ir(result);
  if (ref::cost(after, m.indices, g.ext()) > 600000) sim::skip("result too expensive");
  if (o.full)
    for (auto& t : after.terms)
      for (auto& f : t.facs)
        if (f.kind == ref::NOP_F || f.kind == ref::NOP_B) sim::violation("not_full", "operator left after full contraction: " + par);
  std::string diff;
  if (!o.connect.empty() || !o.avoid.empty()) {
    sim::probe("constrained");
    diff = ref::compare_contractions(before, {o.connect, o.avoid}, after, m.basis, m.indices, g.ext(), 12, sim::rnd());
  } else {
    std::vector<int> kets{-1};
    if (!o.full) kets = {-1, 0, 1, 2, 3};
    diff = ref::compare(before, after, m.basis, m.indices, g.ext(), 12, kets, sim::rnd());
  }
  SIM_CHECK("value", diff.empty(), diff);
  sim::probe(o.full ? "full" : "partial");
  if (!(result->is<Constant>())) sim::probe("nonzero");
  if (par != serial) sim::probe("text_differs");
}
}  // namespace

SIM_SCENARIO(wick_fermi) { wick_scenario<Statistics::FermiDirac>(Vacuum::SingleProduct, SPBasis::Spinor); }
SIM_SCENARIO(wick_fermi_phys) { wick_scenario<Statistics::FermiDirac>(Vacuum::Physical, SPBasis::Spinor); }
SIM_SCENARIO(wick_bose) { wick_scenario<Statistics::BoseEinstein>(Vacuum::Physical, SPBasis::Spinor); }
SIM_SCENARIO(wick_spinfree) { wick_scenario<Statistics::FermiDirac>(Vacuum::SingleProduct, SPBasis::Spinfree); }
