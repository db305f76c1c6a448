// C02: rewriting an expression (canonicalize, expand, simplify, flatten, clone
// ...) preserves its value, gives one answer whatever the schedule, and is idempotent.
#include "harness/common/genprod.hpp"

using namespace simx;

namespace {
void setup_context() {
  program_setup();
  set_default_context(Context({.index_space_registry_shared_ptr = make_registry(),
                               .vacuum = Vacuum::SingleProduct,
                               .metric = IndexSpaceMetric::Unit,
                               .spbasis = SPBasis::Spinor,
                               .first_dummy_index_ordinal = 100}));
}
enum Op { CANON, RAPID, EXPAND, SIMPLIFY, RAPID_SIMPLIFY, NONCANON, FLATTEN, TOPO, LEX, TSUM, NOPS };
const char* opname[] = {"canonicalize", "rapid_canonicalize", "expand", "simplify", "rapid_simplify", "non_canon_simplify", "flatten",
                        "canonicalize(topological)", "canonicalize(lexicographic)", "transform_sum_expr"};

void apply(int op, ExprPtr& e) {
  switch (op) {
    case CANON: canonicalize(e); break;
    case RAPID: {
      auto bp = e->rapid_canonicalize();
      if (bp) e = bp * e;
      break;
    }
    case EXPAND: expand(e); break;
    case SIMPLIFY: simplify(e); break;
    case RAPID_SIMPLIFY: rapid_simplify(e); break;
    case NONCANON: non_canon_simplify(e); break;
    case FLATTEN: flatten(e); break;
    case TOPO: canonicalize(e, {.method = CanonicalizationMethod::Topological}); break;
    case LEX: canonicalize(e, {.method = CanonicalizationMethod::Lexicographic}); break;
    case TSUM:
      if (e->is<Sum>()) e = transform_sum_expr(*e, [](const ExprPtr& x) { return x->clone(); });
      break;
  }
}
struct World {
  Model m{sim::range(1, 2), sim::range(1, 2), 0};
  TensorGen g{m};
  std::vector<int> kets{-1};
  explicit World(bool ops = false) {
    g.protos = sim::chance(20);
    g.auxes = sim::chance(20);
    g.traces = sim::chance(15);
    g.operators = ops && sim::chance(30);
    g.max_dummies = sim::range(2, 6);
    g.make_externals(sim::chance(40) ? 0 : sim::range(1, 4));
    if (g.operators) kets = {-1, 0, 1, 2, 3};
  }
  // products that vanish by symmetry have no canonical sign
  bool vanishes(const ExprPtr& e) {
    auto x = g.ir(e);
    if (ref::cost(x, m.indices, g.ext()) > 400000) sim::skip("too expensive");
    return ref::compare(x, {}, m.basis, m.indices, g.ext(), 10, {-1}, 7).empty();
  }
  void same_value(const ref::IR& a, const ref::IR& b, const std::string& what) {
    if (ref::cost(a, m.indices, g.ext()) + ref::cost(b, m.indices, g.ext()) > 400000) sim::skip("too expensive");
    auto d = ref::compare(a, b, m.basis, m.indices, g.ext(), 10, kets, sim::rnd());
    SIM_CHECK("value", d.empty(), what + ": " + d);
  }
};
}  // namespace

SIM_SCENARIO(rewrite) {
  setup_context();
  sim::watch_races(true);
  World w(true);
  const bool nested = sim::chance(40);
  auto e = sim::chance(15) ? w.g.product(nested) : w.g.sum(sim::range(2, 7), nested);
  const auto before = w.g.ir(e);
  const int nops = sim::range(1, 3);
  std::vector<int> ops;
  for (int k = 0; k < nops; ++k) ops.push_back(sim::pick(NOPS));
  std::string plan = "input " + text(e) + "\n";
  for (int o : ops) plan += std::string(opname[o]) + " ";
  sim::note(plan);
  auto work = [&](ExprPtr x) {
    for (int o : ops) apply(o, x);
    return x;
  };
  const auto serial = sim::in_fork([&] {
    set_num_threads(1);
    // another history: other objects at other addresses, other work done before
    std::vector<std::unique_ptr<char[]>> hole;
    for (int k = sim::pick(40); k > 0; --k) hole.emplace_back(new char[sim::range(1, 400)]);
    for (std::size_t k = 0; k < hole.size(); k += 2) hole[k].reset();
    if (sim::chance(50)) {
      auto other = w.g.sum(2, false);
      simplify(other);
    }
    return text(work(e->clone()));
  });
  set_num_threads(sim::range(1, 4));
  ExprPtr r;
  std::string what;
  try {
    r = work(e->clone());
  } catch (std::exception& x) {
    what = std::string("!EXC:") + x.what();
  }
  sim::watch_races(false);
  sim::NoPreempt np;
  sim::note("result " + (r ? text(r) : what) + "\n1 thread " + serial);
  sim::event(r ? text(r) : what);
  if (!r) {
    SIM_CHECK("schedule", serial.rfind("!EXC:", 0) == 0, "fails only with several threads: " + what);
    sim::skip("refused");
  }
  w.same_value(before, w.g.ir(r), "value changed");
  w.same_value(before, w.g.ir(e), "the original was changed");
  SIM_CHECK("schedule", text(r) == serial, "result differs from the one of 1 thread:\n" + text(r) + "\n" + serial);
  if (r->is<Sum>()) sim::probe("sum");
}

SIM_SCENARIO(equivalent) {
  setup_context();
  sim::watch_races(true);
  World w;
  w.g.lone_traces = w.g.lone_braket = false;  // such single tensors have no unique form
  // a sum minus the same sum written in another way
  const int n = sim::range(1, 4);
  auto s = std::make_shared<Sum>();
  std::vector<ExprPtr> terms;
  for (int k = 0; k < n; ++k) {
    auto t = w.g.product();
    if (!t->is<Product>()) sim::skip("not a product");
    if (w.vanishes(t)) continue;
    auto t2 = w.g.rewritten(t);
    terms.push_back(t->clone());
    auto neg = std::make_shared<Product>();
    neg->scale(-t2->as<Product>().scalar());
    for (auto& f : t2->as<Product>().factors()) neg->append(1, f);
    terms.push_back(neg);
    auto a = w.g.ir(t), b = w.g.ir(t2);
    w.same_value(a, b, "harness");
  }
  if (terms.empty()) sim::skip("nothing left");
  shuffle(terms);
  for (auto& t : terms) s->append(t);
  ExprPtr e = s;
  sim::note("input " + text(e));
  set_num_threads(sim::range(1, 4));
  const auto before = w.g.ir(e);
  simplify(e);
  sim::watch_races(false);
  sim::NoPreempt np;
  sim::note("result " + text(e));
  sim::event(text(e));
  w.same_value(before, w.g.ir(e), "value changed");
  SIM_CHECK("incomplete", e->is<Constant>() && e->as<Constant>().is_zero(), "equal terms were not recognised: " + text(e));
  sim::probe("cancelled");
}

SIM_SCENARIO(idempotent) {
  setup_context();
  World w;
  w.g.lone_traces = w.g.lone_braket = false;  // such single tensors have no unique form
  auto s = std::make_shared<Sum>();
  for (int k = sim::range(1, 6); k > 0; --k) {
    auto t = w.g.product();
    if (!w.vanishes(t)) s->append(t);
  }
  if (s->empty()) sim::skip("nothing left");
  ExprPtr e = s;
  set_num_threads(sim::range(1, 3));
  sim::note("input " + text(e));
  // the labels of external indices count (always so within a sum)
  CanonicalizeOptions o{.method = CanonicalizationMethod::Complete,
                        .ignore_named_index_labels = CanonicalizeOptions::IgnoreNamedIndexLabel::No};
  simplify(e, o);
  auto t1 = text(e);
  simplify(e, o);
  auto t2 = text(e);
  simplify(e, o);
  sim::event(t1);
  sim::note("1 " + t1 + "\n2 " + t2);
  SIM_CHECK("idempotent", t1 == t2, "simplifying again changed:\n" + t1 + "\n" + t2);
  SIM_CHECK("idempotent", t2 == text(e), "simplifying again changed:\n" + t2 + "\n" + text(e));
  sim::probe("done");
}

SIM_SCENARIO(collect) {
  setup_context();
  sim::watch_races(true);
  World w(true);
  if (sim::chance(50)) w.g.exts.clear(), w.g.externals.clear();
  // what the tasks return: terms (some of them alike), sums, scalars, nothing
  const int n = sim::range(1, 9);
  std::vector<ExprPtr> results;
  auto all = std::make_shared<Sum>();
  ref::IR before;
  for (int k = 0; k < n; ++k) {
    ExprPtr e;
    if (!results.empty() && sim::chance(25))
      e = results[sim::pick(k)] ? results[sim::pick(k)] : ExprPtr{};
    if (e)
      e = e->clone();
    else if (w.g.exts.empty() && sim::chance(40))
      e = w.g.scalar();
    else if (sim::chance(15))
      e = w.g.sum(sim::range(2, 3), false);
    else if (sim::chance(85))
      e = w.g.product();
    results.push_back(e);
    auto x = w.g.ir(e);
    before.terms.insert(before.terms.end(), x.terms.begin(), x.terms.end());
  }
  TransformSumExprOptions o{.canonicalize = sim::chance(60), .flatten = sim::chance(70)};
  std::vector<int> items;
  for (int k = 0; k < n; ++k) items.push_back(k);
  std::string plan;
  for (auto& e : results) plan += text(e) + "\n";
  sim::note(std::string(o.canonicalize ? "canonicalize " : "") + (o.flatten ? "flatten" : "") + "\n" + plan);
  set_num_threads(sim::range(1, 4));
  std::vector<ExprPtr> range;
  for (auto& e : results) range.push_back(ex<Constant>(static_cast<int>(range.size())));
  auto r = transform_sum_expr(
      range, [&](const ExprPtr& k) -> ExprPtr {
        auto& e = results[static_cast<std::size_t>(k->as<Constant>().value<int>())];
        return e ? e->clone() : e;
      },
      o);
  sim::watch_races(false);
  sim::NoPreempt np;
  sim::note("result " + text(r));
  sim::event(text(r));
  w.same_value(before, w.g.ir(r), "value of the collected terms");
  sim::probe(r->is<Sum>() ? "sum" : "single");
}
