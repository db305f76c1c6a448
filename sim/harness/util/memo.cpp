// C04: memoized computations shared by threads.
#include "rt/sim.hpp"

#include <SeQuant/core/utility/memoize.hpp>

#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using std::to_string;

namespace {

using Value = std::vector<long>;
using Cache = std::map<int, std::optional<Value>>;

struct Boom : std::runtime_error {
  int key;
  explicit Boom(int k) : std::runtime_error("boom"), key(k) {}
};

Value value_of(int key) { return Value(static_cast<std::size_t>(3 + key % 3), 1000L * key + 7); }

struct World {
  Cache cache;
  std::mutex mtx;
  std::condition_variable cv;
  // history
  std::map<int, int> running, done, failed;
  std::map<int, const Value*> addr;
  int nest_percent = 0;
  int slow_percent = 0;

  const Value& get(int key) {
    const Value& v = sequant::detail::memoize(cache, mtx, cv, key, [this, key] { return compute(key); });
    return v;
  }
  Value compute(int key) {
    bool nest;
    {
      sim::NoPreempt np;
      SIM_CHECK("computed-twice", running[key] == 0, "key " + to_string(key) + " is being computed by two callers at once");
      SIM_CHECK("computed-twice", done[key] == 0, "key " + to_string(key) + " is computed again although its value is known");
      running[key]++;
      nest = key > 0 && sim::chance(nest_percent);
    }
    if (sim::chance(slow_percent))
      for (int i = 0; i < 5; ++i) sim::yield();
    long extra = 0;
    if (nest) {
      const Value* v = nullptr;
      try {
        v = &get(key - 1);
      } catch (...) {
        sim::NoPreempt np;
        running[key]--;
        failed[key]++;
        throw;
      }
      extra = v->at(0) - value_of(key - 1).at(0);
      sim::probe("memo_nested");
    }
    Value r = value_of(key);
    r[0] += extra;  // 0 unless the nested value is wrong
    bool boom;
    {
      sim::NoPreempt np;
      running[key]--;
      boom = sim::fire(sim::F_CALLBACK);
      if (boom)
        failed[key]++;
      else
        done[key]++;
    }
    if (boom) {
      sim::probe("memo_failed");
      throw Boom(key);
    }
    return r;
  }
  void check(int key, const Value& v) {
    SIM_CHECK("wrong-value", v == value_of(key), "wrong value for key " + to_string(key));
    sim::NoPreempt np;
    SIM_CHECK("computed-twice", done[key] == 1, "key " + to_string(key) + " was computed " + to_string(done[key]) + " times");
    auto [it, fresh] = addr.try_emplace(key, &v);
    SIM_CHECK("not-shared", fresh || it->second == &v, "callers got different objects for key " + to_string(key));
  }
};

void client(World& w, const std::vector<int>& plan, int first_op) {
  std::vector<std::pair<int, const Value*>> held;
  for (std::size_t i = 0; i < plan.size(); ++i) {
    if (!sim::op_enabled(first_op + (int)i)) continue;
    const int key = plan[i];
    try {
      const Value& v = w.get(key);
      w.check(key, v);
      held.emplace_back(key, &v);
    } catch (const Boom& b) {
      sim::NoPreempt np;
      SIM_CHECK("wrong-exception", w.failed[b.key] > 0, "an exception nobody raised");
    }
    // what was returned before stays valid
    for (auto& [k, p] : held) SIM_CHECK("dangling", *p == value_of(k), "the value returned for key " + to_string(k) + " changed");
  }
}

void run(bool faults) {
  sim::watch_uaf(true);
  sim::set_max_steps(3000000);
  World w;
  const int nkeys = sim::range(1, 6), nthr = sim::range(2, 5);
  w.nest_percent = sim::chance(40) ? 60 : 0;
  w.slow_percent = sim::pick(100);
  if (faults) sim::arm(sim::F_CALLBACK, 1, sim::range(2, 6), sim::range(1, 8));
  sim::arm(sim::F_SPURIOUS_WAKE, 1, sim::range(2, 10), 20);
  std::vector<std::vector<int>> plans(nthr);
  std::string desc = "keys per thread:";
  for (auto& p : plans) {
    int n = sim::range(1, 5);
    desc += " [";
    for (int i = 0; i < n; ++i) {
      p.push_back(sim::pick(nkeys));
      desc += to_string(p.back()) + (i + 1 < n ? "," : "]");
    }
  }
  sim::note(desc);
  std::vector<std::thread> ts;
  for (int t = 1; t < nthr; ++t) ts.emplace_back([&, t] { client(w, plans[t], t * 10); });
  client(w, plans[0], 0);
  for (auto& t : ts) t.join();
  // once faults stop every key can be had
  sim::disarm(sim::F_CALLBACK);
  for (int k = 0; k < nkeys; ++k) {
    const Value& v = w.get(k);
    w.check(k, v);
  }
  for (int k = 0; k < nkeys; ++k) sim::event_num((std::uint64_t)(w.done[k] * 100 + w.failed[k]));
}

}  // namespace

SIM_SCENARIO(memo_plain) { run(false); }
SIM_SCENARIO(memo_faults) { run(true); }
