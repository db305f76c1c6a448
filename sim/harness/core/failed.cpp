// C08: a call that fails, or succeeds, leaves the process-wide settings and the
// caller's expressions as they were; repeating it gives the answer.
#include "harness/common/genprod.hpp"

#include <SeQuant/core/wick.hpp>

using namespace simx;

namespace {
const wchar_t* const LABELS[] = {L"", L"a", L"ã", L"b", L"\u1d51", L"t", L"E", L"Ẽ"};

struct Settings {
  std::vector<const void*> canon;
  std::vector<std::wstring> cardinal;
  std::vector<Context> ctx;
  int threads;
  Settings() {
    std::set<std::wstring> ls(std::begin(LABELS), std::end(LABELS));
    for (auto& l : NormalOperator<Statistics::FermiDirac>::labels()) ls.insert(l);
    for (auto& l : NormalOperator<Statistics::BoseEinstein>::labels()) ls.insert(l);
    for (auto& l : ls) canon.push_back(TensorCanonicalizer::nondefault_instance_ptr(l).get());
    for (auto& l : TensorCanonicalizer::cardinal_tensor_labels()) cardinal.push_back(l);
    for (auto s : {Statistics::FermiDirac, Statistics::BoseEinstein, Statistics::Arbitrary}) ctx.push_back(get_default_context(s));
    threads = num_threads();
  }
  std::string diff(const Settings& o) const {
    if (canon != o.canon) return "registered canonicalizers";
    if (cardinal != o.cardinal) return "cardinal tensor labels";
    for (std::size_t i = 0; i < ctx.size(); ++i)
      if (!(ctx[i] == o.ctx[i]) || ctx[i].index_space_registry() != o.ctx[i].index_space_registry()) return "default context";
    if (threads != o.threads) return "number of threads";
    return "";
  }
};

struct Injected : std::runtime_error {
  Injected() : std::runtime_error("injected") {}
};

// product of operators and their tensors
ExprPtr op_term(Gen& g, int nn) {
  std::vector<ExprPtr> cnum, ops;
  static const wchar_t* labels[] = {L"g", L"t", L"u"};
  for (int n = 0; n < nn; ++n) {
    const int rank = sim::range(1, 2), kind = sim::pick(3);
    std::vector<Index> c, a;
    for (int k = 0; k < rank; ++k) {
      c.push_back(g.fresh(kind == 0 ? L"a" : kind == 1 ? L"i" : L"p"));
      a.push_back(g.fresh(kind == 0 ? L"i" : kind == 1 ? L"a" : L"p"));
    }
    cnum.push_back(ex<Tensor>(labels[sim::pick(3)], bra(c), ket(a), Symmetry::Antisymm, BraKetSymmetry::Conjugate));
    ops.push_back(ex<FNOperator>(cre(c), ann(a)));
  }
  auto p = std::make_shared<Product>();
  p->scale(random_scalar());
  for (auto& x : cnum) p->append(1, x);
  for (auto& x : ops) p->append(1, x);
  return p;
}

void attempt(const ExprPtr& input, const std::function<ExprPtr(const ExprPtr&, bool)>& call, int nthreads) {
  const auto original = text(input);
  const auto want = sim::in_fork([&] {
    set_num_threads(1);
    return text(call(input, false));
  });
  if (want.rfind("!EXC", 0) == 0) sim::skip("refused");
  // labels the user has canonicalizers of their own for
  if (sim::chance(40)) TensorCanonicalizer::register_instance(std::make_shared<NullTensorCanonicalizer>(), L"ã");
  if (sim::chance(20)) TensorCanonicalizer::register_instance(std::make_shared<NullTensorCanonicalizer>(), L"a");
  set_num_threads(sim::range(1, 4));
  const Settings before;
  sim::exhaustion_may_terminate(true);
  switch (sim::pick(4)) {
    case 0: sim::arm(sim::F_ALLOC, 1, 1 << sim::range(4, 13), sim::range(1, 2)); break;
    case 1: sim::arm(sim::F_THREAD_CREATE, 1, sim::range(1, 4), sim::range(1, 2)); break;
    case 2: sim::arm(sim::F_CALLBACK, 1, sim::range(1, 6), sim::range(1, 2)); break;
    default: break;
  }
  for (int k = sim::range(1, 3); k > 0; --k) {
    std::string got, exc;
    {
      sim::FaultWindow fw;
      try {
        auto r = call(input, true);
        sim::NoPreempt np;
        got = text(r);
      } catch (std::bad_alloc&) {
        exc = "bad_alloc";
      } catch (std::system_error&) {
        exc = "system_error";
      } catch (Injected&) {
        exc = "injected";
      } catch (std::exception& x) {
        exc = std::string("other: ") + x.what();
      }
    }
    sim::NoPreempt np;
    sim::event(got + exc);
    sim::note("call: " + (exc.empty() ? got : exc));
    const bool faulty = sim::fired(sim::F_ALLOC) || sim::fired(sim::F_THREAD_CREATE) || sim::fired(sim::F_CALLBACK);
    if (!exc.empty()) {
      SIM_CHECK("exception", faulty, "an exception nothing raised: " + exc);
      if (exc[0] == 'o') sim::probe("translated");
      sim::probe("failed");
    } else {
      SIM_CHECK("answer", got == want, "answer of a call that did not fail:\n" + got + "\nexpected\n" + want);
    }
    auto d = Settings().diff(before);
    SIM_CHECK("settings", d.empty(), "the call " + (exc.empty() ? std::string("") : "(" + exc + ") ") + "changed the " + d);
    SIM_CHECK("input", text(input) == original, "the caller's expression was changed: " + text(input));
    SIM_CHECK("threads", sim::live_threads() == 1, "threads are still running");
  }
  sim::disarm(sim::F_ALLOC);
  sim::disarm(sim::F_THREAD_CREATE);
  sim::disarm(sim::F_CALLBACK);
  auto r = call(input, true);
  sim::NoPreempt np;
  SIM_CHECK("answer", text(r) == want, "answer of the last call:\n" + text(r) + "\nexpected\n" + want);
}
void set_context() {
  program_setup();
  set_default_context(Context({.index_space_registry_shared_ptr = make_registry(),
                               .vacuum = Vacuum::SingleProduct,
                               .metric = IndexSpaceMetric::Unit,
                               .spbasis = SPBasis::Spinor,
                               .first_dummy_index_ordinal = 100}));
}
}  // namespace

SIM_SCENARIO(failed_wick) {
  set_context();
  sim::watch_races(true);
  sim::watch_uaf(true);
  Model m(1, 1, 0);
  Gen g(m);
  auto s = std::make_shared<Sum>();
  for (int k = sim::range(1, 3); k > 0; --k) s->append(op_term(g, sim::range(1, 2)));
  ExprPtr input = s;
  if (sim::chance(30)) input = s->summand(0)->clone();
  const bool full = sim::chance(60);
  sim::note("input " + text(input));
  attempt(input, [&](const ExprPtr& e, bool) {
    FWickTheorem w(e->clone());  // works on the expression it is given
    w.full_contractions(full).use_topology(full);
    return w.compute();
  }, 0);
}

SIM_SCENARIO(failed_rewrite) {
  set_context();
  sim::watch_races(true);
  sim::watch_uaf(true);
  Model m(1, 1, 0);
  TensorGen g(m);
  g.make_externals(sim::pick(3));
  auto input = g.sum(sim::range(2, 6), sim::chance(50));
  const int op = sim::pick(4);
  sim::note("input " + text(input) + " op " + std::to_string(op));
  attempt(input, [&](const ExprPtr& e, bool faults) {
    if (op == 3) {
      if (!e->is<Sum>()) return e->clone();
      return transform_sum_expr(*e, [&](const ExprPtr& x) {
        if (faults && sim::fire(sim::F_CALLBACK)) throw Injected();
        return x->clone();
      });
    }
    auto x = e->clone();
    if (op == 0) simplify(x);
    if (op == 1) canonicalize(x);
    if (op == 2) expand(x), rapid_simplify(x);
    return x;
  }, 0);
}
