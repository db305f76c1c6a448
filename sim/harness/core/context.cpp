// C06: the default context follows the history of set/scoped/reset calls.
#include "rt/sim.hpp"

#include <SeQuant/core/context.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/utility/context.hpp>

#include <algorithm>
#include <map>
#include <thread>

using namespace sequant;
using std::to_string;

namespace {

struct MCtx {
  const IndexSpaceRegistry* reg = nullptr;
  int vac = (int)Context::Defaults::vacuum, metric = (int)Context::Defaults::metric, strict = Context::Defaults::assert_strict_braket_symmetry,
      basis = (int)Context::Defaults::spbasis, bkt = (int)Context::Defaults::braket_typesetting, bkst = (int)Context::Defaults::braket_slot_typesetting,
      copt = -1;
  std::size_t dummy = Context::Defaults::first_dummy_index_ordinal;
  bool operator==(const MCtx&) const = default;
};
using MMap = std::map<int, MCtx>;  // by Statistics

std::vector<std::shared_ptr<IndexSpaceRegistry>>* REGS = nullptr;

std::string show(const MCtx& m) {
  std::string r = "-";
  for (std::size_t i = 0; i < REGS->size(); ++i)
    if ((*REGS)[i].get() == m.reg) r = to_string(i);
  return "{reg " + r + " vac " + to_string(m.vac) + " metric " + to_string(m.metric) + " strict " + to_string(m.strict) + " basis " + to_string(m.basis) + " bkt " + to_string(m.bkt) + to_string(m.bkst) + " copt " + to_string(m.copt) + " dummy " + to_string(m.dummy) + "}";
}

MCtx random_m() {
  MCtx m;
  if (sim::chance(70)) m.reg = sim::one_of(*REGS).get();
  if (sim::chance(30)) m.vac = sim::pick(3);
  if (sim::chance(30)) m.metric = sim::pick(2);
  if (sim::chance(30)) m.strict = sim::pick(2);
  if (sim::chance(30)) m.basis = sim::pick(2);
  if (sim::chance(20)) m.bkt = sim::pick(2);
  if (sim::chance(20)) m.bkst = sim::pick(2);
  if (sim::chance(30)) m.dummy = (std::size_t)sim::range(1, 300);
  if (sim::chance(30)) m.copt = sim::pick(3);
  return m;
}
CanonicalizeOptions copt(int v) {
  return {.method = v == 0 ? CanonicalizationMethod::Complete : v == 1 ? CanonicalizationMethod::Rapid : CanonicalizationMethod::Topological};
}
std::shared_ptr<IndexSpaceRegistry> shared_reg(const IndexSpaceRegistry* p) {
  for (auto& r : *REGS)
    if (r.get() == p) return r;
  return nullptr;
}
Context::Options options(const MCtx& m) {
  return {.index_space_registry_shared_ptr = shared_reg(m.reg),
          .vacuum = (Vacuum)m.vac,
          .metric = (IndexSpaceMetric)m.metric,
          .assert_strict_braket_symmetry = (bool)m.strict,
          .spbasis = (SPBasis)m.basis,
          .first_dummy_index_ordinal = m.dummy,
          .canonicalization_options = m.copt < 0 ? std::nullopt : std::optional(copt(m.copt)),
          .braket_typesetting = (BraKetTypesetting)m.bkt,
          .braket_slot_typesetting = (BraKetSlotTypesetting)m.bkst};
}
Context make(const MCtx& m, bool by_setters) {
  if (!by_setters) return Context(options(m));
  Context c;
  c.set((Vacuum)m.vac).set((IndexSpaceMetric)m.metric).set(m.strict ? AssertStrictBraKetSymmetry::Yes : AssertStrictBraKetSymmetry::No);
  c.set((SPBasis)m.basis).set_first_dummy_index_ordinal(m.dummy).set((BraKetTypesetting)m.bkt).set((BraKetSlotTypesetting)m.bkst);
  if (m.copt >= 0) c.set(copt(m.copt));
  if (m.reg) c.set(shared_reg(m.reg));
  return c;
}
MCtx look(const Context& c) {
  MCtx m;
  m.reg = c.index_space_registry().get();
  m.vac = (int)c.vacuum();
  m.metric = (int)c.metric();
  m.strict = c.assert_strict_braket_symmetry();
  m.basis = (int)c.spbasis();
  m.bkt = (int)c.braket_typesetting();
  m.bkst = (int)c.braket_slot_typesetting();
  m.dummy = c.first_dummy_index_ordinal();
  if (auto o = c.canonicalization_options()) m.copt = o->method == CanonicalizationMethod::Complete ? 0 : o->method == CanonicalizationMethod::Rapid ? 1 : 2;
  return m;
}
const int ARB = (int)Statistics::Arbitrary;
MCtx resolve(const MMap& m, int s) {
  auto it = m.find(s);
  if (it == m.end()) it = m.find(ARB);
  return it == m.end() ? MCtx{} : it->second;
}
const int STATS[] = {(int)Statistics::FermiDirac, (int)Statistics::BoseEinstein, (int)Statistics::Arbitrary};

struct Thrown {};

struct Player {
  MMap model;
  int ops = 0, budget = 0, scopes = 0, unwinds = 0, oom = 0;
  bool faults = false;

  void compare(const std::string& where) {
    // reading everything would create the lazily made entry early
    if (sim::chance(30)) return;
    for (int s : STATS)
      if (sim::chance(70)) {
        MCtx got = look(get_default_context((Statistics)s)), want = resolve(model, s);
        SIM_CHECK("wrong-context", got == want, where + ": statistics " + to_string(s) + " has " + show(got) + ", expected " + show(want));
        if (!model.count(ARB) && (s == ARB || !model.count(s))) model[ARB] = MCtx{};  // now it exists
      }
  }

  template <typename Make>
  void scope(const std::string& d, MMap entered, Make&& mk, int depth) {
    MMap saved = model;
    bool threw = false;
    try {
      auto r = mk();
      model = std::move(entered);
      ++scopes;
      compare("inside " + d);
      play(depth + 1);
      compare("end of " + d);
    } catch (const Thrown&) {
      threw = true;
      ++unwinds;
    }
    model = saved;
    compare(std::string("after leaving ") + (threw ? "(by exception) " : "") + d);
  }

  template <typename F>
  bool guarded(F&& f) {
    try {
      if (faults) {
        sim::FaultWindow fw;
        f();
      } else
        f();
      return true;
    } catch (const std::bad_alloc&) {
      ++oom;
      return false;
    }
  }

  void play(int depth) {
    for (int n = sim::range(0, 5); n > 0 && budget > 0; --n) {
      const int idx = ops++;
      --budget;
      const int kind = sim::pick(10), s = STATS[sim::pick(3)];
      const bool setters = sim::chance(50), opts = sim::chance(50);
      MCtx m = random_m();
      // often something that compares equal to what is there
      if (sim::chance(35)) m = resolve(model, s);
      if (sim::chance(15)) m = MCtx{};
      const bool on = sim::op_enabled(idx);
      std::string d = "op " + to_string(idx) + " depth " + to_string(depth) + ": ";
      switch (kind) {
        case 0:
        case 1:
          if (!on) break;
          sim::note(d += "set statistics " + to_string(s) + " to " + show(m));
          if (guarded([&] {
                if (opts)
                  set_default_context(options(m), (Statistics)s);
                else
                  set_default_context(make(m, setters), (Statistics)s);
              }))
            model[s] = m;
          break;
        case 2: {
          container::map<Statistics, Context> cm;
          MMap mm;
          for (int i = 0; i < 2; ++i) {
            MCtx x = random_m();
            int ss = STATS[sim::pick(3)];
            mm[ss] = x;
            cm.insert_or_assign((Statistics)ss, make(x, setters));
          }
          if (!on) break;
          sim::note(d += "set " + to_string(mm.size()) + " statistics at once");
          set_default_context(cm);
          for (auto& [k, v] : mm) model[k] = v;
          break;
        }
        case 3:
          if (!on || !sim::chance(40)) break;
          sim::note(d += "reset");
          reset_default_context();
          model.clear();
          break;
        case 4:
        case 5:
          if (!on) break;
          sim::note(d += "scope with " + show(m));
          if (opts)
            scope(d, MMap{{ARB, m}}, [&] { return set_scoped_default_context(options(m)); }, depth);
          else
            scope(d, MMap{{ARB, m}}, [&] { return set_scoped_default_context(make(m, setters)); }, depth);
          break;
        case 6:
        case 7: {
          container::map<Statistics, Context> cm;
          MMap mm;
          if (sim::chance(35))
            mm = model;  // re-enters what is in force
          else
            for (int i = sim::range(1, 3); i > 0; --i) mm[STATS[sim::pick(3)]] = random_m();
          for (auto& [k, v] : mm) cm.emplace((Statistics)k, make(v, setters));
          if (!on) break;
          sim::note(d += "scope with " + to_string(mm.size()) + " statistics");
          scope(d, mm, [&] { return set_scoped_default_context(cm); }, depth);
          break;
        }
        case 8:
          compare(d + "read");
          break;
        case 9:
          if (on && depth > 0 && sim::chance(50)) {
            sim::note(d + "throw");
            throw Thrown{};
          }
          break;
      }
      if (kind < 4) compare(d);
    }
  }
};

}  // namespace

SIM_SCENARIO(context_history) {
  std::vector<std::shared_ptr<IndexSpaceRegistry>> regs;
  for (int i = 0; i < 3; ++i) {
    regs.push_back(std::make_shared<IndexSpaceRegistry>());
    if (i < 2) regs.back()->add(L"i", 0b01, is_vacuum_occupied).add(L"a", 0b10, is_complete);
  }
  // shares the spaces, not the roles
  regs.push_back(std::make_shared<IndexSpaceRegistry>(*regs[0]));
  regs.back()->vacuum_occupied_space(IndexSpace::Type(0b10));
  REGS = &regs;
  Player p;
  p.budget = sim::range(4, 40);
  if (sim::chance(20)) {
    p.faults = true;
    sim::arm(sim::F_ALLOC, 1, sim::range(3, 30), sim::range(1, 4));
  }
  p.compare("initially");
  while (p.budget > 0) p.play(0);
  for (int s : STATS) {
    MCtx got = look(get_default_context((Statistics)s)), want = resolve(p.model, s);
    SIM_CHECK("wrong-context", got == want, "finally: statistics " + to_string(s) + " has " + show(got) + ", expected " + show(want));
  }
  // comparing contexts, whatever they hold
  for (int i = 0; i < 3; ++i) {
    MCtx a = random_m(), b = sim::chance(50) ? a : random_m();
    if (sim::chance(30)) a.reg = nullptr;
    Context ca = make(a, false), cb = make(b, true);
    if (a == b)
      SIM_CHECK("context-equality", ca == cb && !(ca != cb), "equal contexts compare different: " + show(a));
    else {
      MCtx a2 = a;
      a2.reg = b.reg;
      if (!(a2 == b)) SIM_CHECK("context-equality", !(ca == cb), "different contexts compare equal: " + show(a) + " " + show(b));
      if (!a.reg != !b.reg) SIM_CHECK("context-equality", !(ca == cb), "context without registry equals one with");
    }
    Context cc(ca);
    if (a.reg) {
      Context cl = ca.clone();
      cl.mutable_index_space_registry()->add(L"q", 0b1000);
      SIM_CHECK("clone-shares", !ca.index_space_registry()->contains(L"q"), "a clone shares the registry");
      SIM_CHECK("copy-detached", look(cc) == look(ca), "copy differs");
    }
  }
  if (p.scopes) sim::probe("scope_left");
  if (p.unwinds) sim::probe("scope_unwound");
  if (p.oom) sim::probe("context_alloc_failed");
  sim::event_num((std::uint64_t)(p.ops * 10000 + p.scopes * 100 + p.unwinds));
}

// first use from several threads at once
SIM_SCENARIO(context_first_use) {
  std::vector<std::shared_ptr<IndexSpaceRegistry>> regs;
  REGS = &regs;
  const int nthr = sim::range(2, 5);
  std::vector<int> st(nthr);
  for (auto& s : st) s = STATS[sim::pick(3)];
  std::vector<std::thread> ts;
  auto client = [&](int t) {
    for (int i = 0; i < 2; ++i) {
      MCtx got = look(get_default_context((Statistics)st[t]));
      SIM_CHECK("wrong-context", got == MCtx{}, "first use sees " + show(got));
    }
  };
  for (int t = 1; t < nthr; ++t) ts.emplace_back(client, t);
  client(0);
  for (auto& t : ts) t.join();
  client(0);
}

// manipulation from several threads: as if the calls had run in some order
SIM_SCENARIO(context_threads) {
  std::vector<std::shared_ptr<IndexSpaceRegistry>> regs;
  for (int i = 0; i < 2; ++i) regs.push_back(std::make_shared<IndexSpaceRegistry>());
  REGS = &regs;
  struct Call {
    int kind, s;
    MCtx m;
    MMap saved;
  };
  const int nthr = sim::range(2, 3);
  std::vector<std::vector<Call>> plan(nthr);
  MMap init;
  for (int s : STATS)
    if (sim::chance(50) || s == ARB) {
      init[s] = random_m();
      set_default_context(make(init[s], false), (Statistics)s);
    }
  std::string d;
  for (int t = 0; t < nthr; ++t) {
    int n = sim::range(1, nthr == 2 ? 3 : 2);
    d += "[";
    for (int i = 0; i < n; ++i) {
      Call c{sim::pick(4), STATS[sim::pick(3)], random_m(), {}};
      if (!sim::op_enabled(t * 10 + i)) continue;
      d += (const char*[]){"set", "scope", "scope-map", "reset"}[c.kind] + to_string(c.s) + show(c.m) + " ";
      plan[t].push_back(c);
    }
    d += "]";
  }
  sim::note(d);
  auto client = [&](int t) {
    for (auto& c : plan[t]) {
      const Statistics s = (Statistics)c.s;
      if (c.kind == 0) set_default_context(make(c.m, false), s);
      if (c.kind == 1) {
        if (c.s == ARB) {
          auto r = set_scoped_default_context(make(c.m, false));
          sim::yield();
        } else {
          auto r = set_scoped_default_context(options(c.m));
          sim::yield();
        }
      }
      if (c.kind == 2) {
        auto r = set_scoped_default_context(container::map<Statistics, Context>{{s, make(c.m, false)}});
        sim::yield();
      }
      if (c.kind == 3) reset_default_context();
    }
  };
  std::vector<std::thread> ts;
  for (int t = 1; t < nthr; ++t) ts.emplace_back(client, t);
  client(0);
  for (auto& t : ts) t.join();
  sim::NoPreempt np;
  MMap got;
  // every sequential order of the atomic steps (a scope is two steps)
  struct Step {
    int kind;  // 0 set 1 enter 2 leave 3 reset
    int s;
    const MCtx* m;
  };
  std::vector<std::vector<Step>> st(nthr);
  for (int t = 0; t < nthr; ++t)
    for (auto& c : plan[t]) {
      if (c.kind == 0) st[t].push_back({0, c.s, &c.m});
      if (c.kind == 3) st[t].push_back({3, 0, nullptr});
      if (c.kind == 1 || c.kind == 2) {
        st[t].push_back({1, c.kind == 1 ? ARB : c.s, &c.m});
        st[t].push_back({2, 0, nullptr});
      }
    }
  std::vector<std::size_t> at(nthr, 0);
  std::vector<std::vector<MMap>> stack(nthr);
  std::array<MCtx, 3> fin;
  for (int k = 0; k < 3; ++k) fin[k] = look(get_default_context((Statistics)STATS[k]));
  bool found = false;
  long leaves = 0;
  std::function<void(MMap)> rec = [&](MMap cur) {
    if (found || leaves > 20000) return;
    bool end = true;
    for (int t = 0; t < nthr; ++t) {
      if (at[t] == st[t].size()) continue;
      end = false;
      const Step& x = st[t][at[t]];
      MMap next = cur;
      MMap popped;
      if (x.kind == 0) next[x.s] = *x.m;
      if (x.kind == 1) {
        stack[t].push_back(cur);
        next = MMap{{x.s, *x.m}};
      }
      if (x.kind == 2) {
        popped = stack[t].back();
        next = popped;
        stack[t].pop_back();
      }
      if (x.kind == 3) next.clear();
      ++at[t];
      rec(next);
      --at[t];
      if (x.kind == 1) stack[t].pop_back();
      if (x.kind == 2) stack[t].push_back(popped);
    }
    if (end) {
      ++leaves;
      bool ok = true;
      for (int k = 0; k < 3; ++k) ok = ok && resolve(cur, STATS[k]) == fin[k];
      found = found || ok;
    }
  };
  rec(init);
  if (leaves > 20000 && !found) sim::skip("too many orders");
  SIM_CHECK("not-serializable", found, "no order of the calls leads to the final contexts " + show(fin[0]) + show(fin[1]) + show(fin[2]));
  sim::probe("orders_checked");
}
