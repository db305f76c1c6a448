// C06/C07: operator registries and the MBPT context.
#include "rt/sim.hpp"

#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>

#include <map>
#include <set>
#include <thread>

using namespace sequant;
using namespace sequant::mbpt;
using std::to_string;

namespace {

struct MOp {
  int cls = 0;
  int herm = -1;  // -1: default for the class
  bool operator==(const MOp&) const = default;
};
using MOps = std::map<std::wstring, MOp>;
const std::vector<std::wstring> LABELS = {L"t", L"λ", L"h", L"g", L"R", L"xx", L"f̃", L"δ", L"s", L"Ŝ", L"τ"};
const std::set<std::wstring> RESERVED = {L"Â", L"Ŝ", L"P̂", L"s", L"δ"};
int herm_of(const MOp& o) { return o.herm >= 0 ? o.herm : (int)default_hermiticity((OpClass)o.cls); }
std::string u8(const std::wstring& w) { return toUtf8(w); }

struct W {
  std::vector<OpRegistry> r;
  std::vector<std::shared_ptr<MOps>> m;
};

template <typename F>
auto attempt(F&& fn) -> std::optional<decltype(fn())> {
  try {
    return fn();
  } catch (const Exception&) {
    return {};
  }
}

void check(const OpRegistry& r, const MOps& m, const std::string& where) {
  auto it = m.begin();
  for (auto& [k, c] : r) {
    SIM_CHECK("operators", it != m.end() && it->first == k, where + ": unexpected operator " + u8(k));
    SIM_CHECK("operators", (int)c == it->second.cls, where + ": class of " + u8(k));
    ++it;
  }
  SIM_CHECK("operators", it == m.end(), where + ": an operator is missing");
  for (auto& l : LABELS) {
    auto mi = m.find(l);
    const bool have = mi != m.end();
    SIM_CHECK("operators", r.contains(l) == have, where + ": contains " + u8(l));
    auto c = attempt([&] { return r.to_class(l); });
    auto h = attempt([&] { return r.hermiticity(l); });
    SIM_CHECK("operators", c.has_value() == have && h.has_value() == have, where + ": lookup of " + u8(l));
    if (have) {
      SIM_CHECK("operators", (int)*c == mi->second.cls, where + ": class of " + u8(l));
      SIM_CHECK("operators", (int)*h == herm_of(mi->second), where + ": hermiticity of " + u8(l));
    }
  }
}

}  // namespace

SIM_SCENARIO(op_registry_history) {
  W w;
  const int n = sim::range(1, 3);
  for (int i = 0; i < n; ++i) {
    w.r.emplace_back();
    w.m.push_back(std::make_shared<MOps>());
  }
  const bool faults = sim::chance(40);
  if (faults) sim::arm(sim::F_ALLOC, 1, sim::range(5, 60), sim::range(1, 5));
  int refused = 0, oom = 0;
  for (int k = 0, e = sim::range(5, 40); k < e; ++k) {
    const int a = sim::pick(n), b = sim::pick(n), kind = sim::pick(9), cls = sim::pick(3), h = sim::pick(2);
    const std::wstring l = sim::one_of(LABELS);
    OpRegistry& r = w.r[a];
    MOps& m = *w.m[a];
    std::string d = "op " + to_string(k) + ": registry " + to_string(a) + " ";
    if (!sim::op_enabled(k)) continue;
    int want = 1;  // 1 done 0 refused
    std::function<void()> real, model;
    bool composite = false;
    switch (kind) {
      case 0:
      case 1:
        d += "add " + u8(l);
        real = [&] { r.add(l, (OpClass)cls); };
        want = !RESERVED.count(l) && !m.count(l);
        model = [&] { m[l] = {cls, -1}; };
        break;
      case 2:
        d += "add " + u8(l) + " hermiticity " + to_string(h);
        composite = true;
        real = [&] { r.add(l, (OpClass)cls, (Hermiticity)h); };
        want = !RESERVED.count(l) && !m.count(l);
        model = [&] { m[l] = {cls, h}; };
        break;
      case 3:
        d += "set_hermiticity " + u8(l);
        real = [&] { r.set_hermiticity(l, (Hermiticity)h); };
        want = m.count(l);
        model = [&] { m[l].herm = h; };
        break;
      case 4:
      case 5:
        d += "remove " + u8(l);
        real = [&] { r.remove(l); };
        want = m.count(l);
        model = [&] { m.erase(l); };
        break;
      case 6:
        if (a == b) continue;
        d += "= copy of " + to_string(b);
        real = [&] {
          if (h)
            r = w.r[b];
          else {
            OpRegistry t(w.r[b]);
            r = std::move(t);
          }
        };
        model = [&] { w.m[a] = w.m[b]; };
        break;
      case 7:
        d += "= clone of " + to_string(b);
        real = [&] { r = w.r[b].clone(); };
        model = [&] { w.m[a] = std::make_shared<MOps>(*w.m[b]); };
        break;
      case 8:
        if (!sim::chance(30)) continue;
        d += "purge";
        real = [&] { r.purge(); };
        model = [&] { m.clear(); };
        break;
    }
    sim::note(d);
    sim::event(d);
    int out = 0;
    try {
      if (faults && !composite) {
        sim::FaultWindow fw;
        real();
      } else
        real();
      out = 1;
    } catch (const Exception&) {
    } catch (const std::bad_alloc&) {
      out = 2;
      ++oom;
    }
    if (out != 2) {
      SIM_CHECK("outcome", out == want, d + (want ? ": refused, should succeed" : ": succeeded, should be refused"));
      if (want)
        model();
      else
        ++refused;
    }
    for (int i = 0; i < n; ++i)
      if (sim::chance(60)) check(w.r[i], *w.m[i], "after " + d + ", registry " + to_string(i));
    if (n > 1) {
      bool eq = w.m[0]->size() == w.m[1]->size();
      for (auto& [k2, o] : *w.m[0]) eq = eq && w.m[1]->count(k2) && w.m[1]->at(k2) == o;
      SIM_CHECK("equality", (w.r[0] == w.r[1]) == eq, "operator== after " + d);
    }
  }
  sim::disarm(sim::F_ALLOC);
  for (int i = 0; i < n; ++i) check(w.r[i], *w.m[i], "finally registry " + to_string(i));
  if (refused) sim::probe("op_refused");
  if (oom) sim::probe("op_alloc_failed");
  sim::event_num((std::uint64_t)(refused * 100 + oom));
}

namespace {
struct MC {
  int csv = (int)CSV::No;
  const OpRegistry* reg = nullptr;
  bool operator==(const MC&) const = default;
};
struct Thrown {};
std::vector<std::shared_ptr<OpRegistry>>* OREGS = nullptr;
mbpt::Context make(const MC& m, bool setters) {
  std::shared_ptr<OpRegistry> p;
  for (auto& r : *OREGS)
    if (r.get() == m.reg) p = r;
  if (setters) {
    mbpt::Context c;
    c.set((CSV)m.csv);
    if (p) c.set(p);
    return c;
  }
  return mbpt::Context({.csv = (CSV)m.csv, .op_registry_ptr = p});
}
MC look(const mbpt::Context& c) {
  MC m;
  m.csv = (int)c.csv();
  try {
    m.reg = c.op_registry().get();
  } catch (const Exception&) {
  }
  return m;
}
std::string show(const MC& m) {
  std::string r = "-";
  for (std::size_t i = 0; i < OREGS->size(); ++i)
    if ((*OREGS)[i].get() == m.reg) r = to_string(i);
  return "{csv " + to_string(m.csv) + " registry " + r + "}";
}
struct MPlayer {
  MC model;
  int ops = 0, budget = 0, scopes = 0, unwinds = 0;
  MC random() {
    if (sim::chance(30)) return model;
    MC m;
    m.csv = sim::pick(2);
    if (sim::chance(80)) m.reg = sim::one_of(*OREGS).get();
    return m;
  }
  void compare(const std::string& where) {
    MC got = look(get_default_mbpt_context());
    SIM_CHECK("wrong-context", got == model, where + ": " + show(got) + ", expected " + show(model));
  }
  void play(int depth) {
    for (int n = sim::range(0, 5); n > 0 && budget > 0; --n) {
      const int idx = ops++;
      --budget;
      const MC m = random();
      const bool setters = sim::chance(50);
      const int kind = sim::pick(6);
      std::string d = "op " + to_string(idx) + " depth " + to_string(depth) + ": ";
      if (!sim::op_enabled(idx)) continue;
      if (kind < 2) {
        sim::note(d += "set " + show(m));
        set_default_mbpt_context(make(m, setters));
        model = m;
      } else if (kind == 2 && sim::chance(30)) {
        sim::note(d += "reset");
        reset_default_mbpt_context();
        model = MC{};
      } else if (kind < 5) {
        sim::note(d += "scope " + show(m));
        MC saved = model;
        try {
          auto r = set_scoped_default_mbpt_context(make(m, setters));
          model = m;
          compare("inside " + d);
          ++scopes;
          play(depth + 1);
        } catch (const Thrown&) {
          ++unwinds;
        }
        model = saved;
        compare("after leaving " + d);
      } else if (depth > 0) {
        sim::note(d + "throw");
        throw Thrown{};
      }
      compare(d);
    }
  }
};
}  // namespace

SIM_SCENARIO(mbpt_context_history) {
  std::vector<std::shared_ptr<OpRegistry>> regs{make_minimal_registry(), make_legacy_registry(), make_minimal_registry()};
  OREGS = &regs;
  MPlayer p;
  p.budget = sim::range(4, 30);
  p.compare("initially");
  while (p.budget > 0) p.play(0);
  for (int i = 0; i < 3; ++i) {
    MC a = p.random(), b = p.random();
    mbpt::Context ca = make(a, true), cb = make(b, false);
    bool eq = a.csv == b.csv && (!a.reg == !b.reg) && (!a.reg || *a.reg == *b.reg);
    SIM_CHECK("context-equality", (ca == cb) == eq && (ca != cb) == !eq, "comparison of " + show(a) + " and " + show(b));
    mbpt::Context cl = ca.clone();
    if (a.reg) {
      cl.mutable_op_registry()->add(L"zz", OpClass::Ex);
      SIM_CHECK("clone-shares", !a.reg->contains(L"zz"), "a clone shares the registry");
    }
  }
  if (p.scopes) sim::probe("scope_left");
  if (p.unwinds) sim::probe("scope_unwound");
  sim::event_num((std::uint64_t)(p.ops * 10000 + p.scopes * 100 + p.unwinds));
}

SIM_SCENARIO(mbpt_context_threads) {
  std::vector<std::shared_ptr<OpRegistry>> regs{make_minimal_registry(), make_legacy_registry()};
  OREGS = &regs;
  MPlayer gen;
  struct Call {
    int kind;
    MC m;
  };
  const int nthr = sim::range(2, 3);
  std::vector<std::vector<Call>> plan(nthr);
  MC init = gen.random();
  set_default_mbpt_context(make(init, false));
  std::vector<MC> possible{init, MC{}};
  for (int t = 0; t < nthr; ++t)
    for (int i = sim::range(1, 3); i > 0; --i) {
      Call c{sim::pick(3), gen.random()};
      if (!sim::op_enabled(t * 10 + i)) continue;
      sim::note("thread " + to_string(t) + ": " + (const char*[]){"set ", "scope ", "reset "}[c.kind] + show(c.m));
      plan[t].push_back(c);
      possible.push_back(c.m);
    }
  auto client = [&](int t) {
    for (auto& c : plan[t]) {
      if (c.kind == 0) set_default_mbpt_context(make(c.m, false));
      if (c.kind == 1) {
        auto r = set_scoped_default_mbpt_context(make(c.m, true));
        sim::yield();
      }
      if (c.kind == 2) reset_default_mbpt_context();
    }
  };
  std::vector<std::thread> ts;
  for (int t = 1; t < nthr; ++t) ts.emplace_back(client, t);
  client(0);
  for (auto& t : ts) t.join();
  MC fin = look(get_default_mbpt_context());
  bool ok = false;
  for (auto& p : possible) ok = ok || p == fin;
  SIM_CHECK("not-serializable", ok, "final context " + show(fin) + " was never set");
}
