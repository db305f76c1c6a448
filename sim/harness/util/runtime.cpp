// C03: the parallel primitives (for_each, transform_reduce, parallel_do).
#include "rt/sim.hpp"

#include <SeQuant/core/runtime.hpp>

#include <condition_variable>
#include <deque>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>

using namespace sequant;
using std::to_string;

namespace {

struct Boom : std::runtime_error {
  int id;
  explicit Boom(int i) : std::runtime_error("boom " + to_string(i)), id(i) {}
};

// what the scenario knows about one call
struct Call {
  std::vector<int> started, finished;  // per item
  std::set<int> threw;
  std::set<int> tids;
  int running = 0, peak = 0;
  bool over = false;
  explicit Call(std::size_t n) : started(n, 0), finished(n, 0) {}
  void enter(int i) {
    sim::NoPreempt np;
    SIM_CHECK("late-work", !over, "item " + to_string(i) + " is processed after the call returned");
    SIM_CHECK("bad-item", i >= 0 && i < (int)started.size(), "item " + to_string(i) + " is not in the range");
    started[i]++;
    SIM_CHECK("item-repeated", started[i] == 1, "item " + to_string(i) + " is processed twice");
    tids.insert(sim::current_tid());
    ++running;
    peak = std::max(peak, running);
  }
  void leave(int i) {
    sim::NoPreempt np;
    finished[i]++;
    --running;
    SIM_CHECK("late-work", !over, "item " + to_string(i) + " is processed after the call returned");
  }
  void fail(int i) {
    sim::NoPreempt np;
    threw.insert(i);
    --running;
  }
  void end(const char* what, int nthreads, int live_before, bool check_live) {
    sim::NoPreempt np;
    over = true;
    SIM_CHECK("late-work", running == 0, std::string(what) + " returned while " + to_string(running) + " items are in progress");
    SIM_CHECK("too-many-threads", peak <= nthreads, std::string(what) + " ran " + to_string(peak) + " items at once with " + to_string(nthreads) + " threads");
    if (check_live)
      SIM_CHECK("thread-leak", sim::live_threads() == live_before, std::string(what) + " left " + to_string(sim::live_threads() - live_before) + " threads behind");
    int n = 0;
    for (int f : finished) n += f;
    sim::event_num(tids.size() * 1000 + peak * 100 + n);
  }
};

struct Item {
  int id;
  long payload;  // plain memory: the race detector watches it
};

template <typename C>
C make_items(int n) {
  C c;
  for (int i = 0; i < n; ++i) c.push_back(Item{i, i});
  return c;
}

template <typename C>
void each_once(int n, int nt, bool faults, bool check_live) {
  C items = make_items<C>(n);
  Call call(n);
  std::set<int> bad;
  if (faults)
    for (int i = 0; i < n; ++i)
      if (sim::fire(sim::F_CALLBACK)) bad.insert(i);
  const int live = sim::live_threads();
  bool threw = false;
  int threw_id = -2;
  const long base = sim::pick(1000);
  try {
    sim::FaultWindow fw;
    for_each(items, [&](Item& it) {
      call.enter(it.id);
      it.payload = it.payload * 3 + base;
      bool b;
      {
        sim::NoPreempt np;
        b = bad.count(it.id) != 0;
      }
      if (b) {
        call.fail(it.id);
        throw Boom(it.id);
      }
      call.leave(it.id);
    });
  } catch (const Boom& b) {
    threw = true;
    threw_id = b.id;
  } catch (const std::exception& e) {
    // the only other failures here are the injected ones
    threw = true;
    threw_id = -1;
  }
  call.end("for_each", nt, live, check_live);
  if (threw && threw_id >= 0) SIM_CHECK("wrong-exception", call.threw.count(threw_id), "the exception of an item that did not throw");
  if (threw && threw_id == -1)
    SIM_CHECK("wrong-exception", sim::fired(sim::F_THREAD_CREATE) || sim::fired(sim::F_ALLOC), "an exception nothing raised");
  if (!threw) {
    SIM_CHECK("lost-exception", call.threw.empty(), "an item threw and for_each returned normally");
    for (int i = 0; i < n; ++i) SIM_CHECK("item-lost", call.finished[i] == 1, "item " + to_string(i) + " was not processed");
    for (auto& it : items)
      SIM_CHECK("effect-lost", it.payload == it.id * 3L + base, "effect on item " + to_string(it.id) + " is not visible after the call");
  } else
    sim::probe("each_threw");
  if (call.tids.size() > 1) sim::probe("each_shared_work");
}

void dispatch_each(bool faults, bool check_live) {
  int n = sim::chance(20) ? sim::range(0, 3) : sim::range(0, 24), nt = num_threads();
  switch (sim::pick(4)) {
    case 0:
      return each_once<std::vector<Item>>(n, nt, faults, check_live);
    case 1:
      return each_once<std::list<Item>>(n, nt, faults, check_live);
    case 2:
      return each_once<std::deque<Item>>(n, nt, faults, check_live);
    default:
      return each_once<container::svector<Item>>(n, nt, faults, check_live);
  }
}

// result type with plain memory inside: a reduction that is not protected races
struct Acc {
  long sum = 0, n = 0;
  std::vector<int> ids;
};

void reduce_once(bool faults, bool check_live) {
  const int n = sim::range(0, 24), nt = num_threads(), kind = sim::pick(4);
  std::vector<Item> items = make_items<std::vector<Item>>(n);
  Call call(n);
  std::set<int> bad, badr;
  if (faults)
    for (int i = 0; i < n; ++i) {
      if (sim::fire(sim::F_CALLBACK)) (sim::chance(50) ? bad : badr).insert(i);
    }
  const int live = sim::live_threads();
  const long init = sim::range(-5, 1000), mul = sim::range(2, 9);
  bool threw = false;
  int threw_id = -2;
  long got = 0, want = 0;
  std::vector<int> gotids;
  auto map = [&](const Item& it) {
    call.enter(it.id);
    bool b;
    {
      sim::NoPreempt np;
      b = bad.count(it.id) != 0;
    }
    if (b) {
      call.fail(it.id);
      throw Boom(it.id);
    }
    long v = it.payload * mul + 1;
    call.leave(it.id);
    return v;
  };
  int reductions = 0;
  try {
    sim::FaultWindow fw;
    if (kind == 0) {
      got = transform_reduce(items, init, [&](long a, long b) { return a + b; }, map);
    } else if (kind == 1) {
      got = transform_reduce(items, init, [&](long a, long b) { return std::max(a, b); }, map);
    } else if (kind == 2) {
      got = transform_reduce(items, init, [&](long a, long b) { return a ^ b; }, map);
    } else {
      Acc in;
      in.sum = init;
      Acc r = transform_reduce(
          items, in,
          [&](const Acc& a, const Acc& b) {
            {
              sim::NoPreempt np;
              ++reductions;
              for (int id : b.ids)
                if (badr.count(id)) {
                  call.threw.insert(id);
                  throw Boom(id);
                }
            }
            Acc c;
            c.sum = a.sum + b.sum;
            c.n = a.n + b.n;
            c.ids = a.ids;
            c.ids.insert(c.ids.end(), b.ids.begin(), b.ids.end());
            return c;
          },
          [&](const Item& it) {
            Acc a;
            a.sum = map(it);
            a.n = 1;
            a.ids.push_back(it.id);
            return a;
          });
      got = r.sum;
      gotids = r.ids;
      SIM_CHECK("reduce-count", r.n == n, "reduced " + to_string(r.n) + " of " + to_string(n) + " items");
    }
  } catch (const Boom& b) {
    threw = true;
    threw_id = b.id;
  } catch (const std::exception& e) {
    threw = true;
    threw_id = -1;
  }
  call.end("transform_reduce", nt, live, check_live);
  if (threw && threw_id >= 0) SIM_CHECK("wrong-exception", call.threw.count(threw_id), "the exception of an item that did not throw");
  if (threw && threw_id == -1)
    SIM_CHECK("wrong-exception", sim::fired(sim::F_THREAD_CREATE) || sim::fired(sim::F_ALLOC), "an exception nothing raised");
  if (threw) {
    sim::probe("reduce_threw");
    return;
  }
  SIM_CHECK("lost-exception", call.threw.empty(), "an item threw and transform_reduce returned normally");
  for (int i = 0; i < n; ++i) SIM_CHECK("item-lost", call.finished[i] == 1, "item " + to_string(i) + " was not mapped");
  want = init;
  for (int i = 0; i < n; ++i) {
    long v = i * mul + 1;
    want = kind == 1 ? std::max(want, v) : kind == 2 ? (want ^ v) : want + v;
  }
  SIM_CHECK("wrong-reduction", got == want, "reduction of kind " + to_string(kind) + " gave " + to_string(got) + ", expected " + to_string(want));
  if (kind == 3) {
    std::sort(gotids.begin(), gotids.end());
    for (int i = 0; i < n; ++i) SIM_CHECK("wrong-reduction", gotids[i] == i, "item reduced other than once");
  }
  sim::event_num((std::uint64_t)got);
  if (call.tids.size() > 1) sim::probe("reduce_shared_work");
}

// a barrier makes sure that every instance has a thread of its own
void do_once(bool faults, bool check_live) {
  const int nt = num_threads();
  Call call(nt);
  std::set<int> bad;
  if (faults)
    for (int i = 0; i < nt; ++i)
      if (sim::fire(sim::F_CALLBACK)) bad.insert(i);
  const bool barrier = !faults && sim::chance(50);
  const int how = sim::pick(3);
  const int live = sim::live_threads();
  std::mutex m;
  std::condition_variable cv;
  int arrived = 0;
  std::vector<long> out(nt, 0);
  std::vector<long> captured(5, 7);
  bool threw = false;
  int threw_id = -2;
  auto body = [&](int id, const std::vector<long>& cap) {
    call.enter(id);
    bool b;
    {
      sim::NoPreempt np;
      b = bad.count(id) != 0;
    }
    if (b) {
      call.fail(id);
      throw Boom(id);
    }
    if (barrier) {
      std::unique_lock<std::mutex> l(m);
      if (++arrived == nt) cv.notify_all();
      cv.wait(l, [&] { return arrived == nt; });
    }
    out[id] = std::accumulate(cap.begin(), cap.end(), 0L) + id;
    call.leave(id);
  };
  try {
    sim::FaultWindow fw;
    if (how == 0) {
      auto f = [&](int id) { body(id, captured); };
      parallel_do(f);
    } else if (how == 1) {
      parallel_do([&](int id) { body(id, captured); });
    } else {
      // a temporary that owns what it captured
      parallel_do([&body, captured](int id) { body(id, captured); });
    }
  } catch (const Boom& b) {
    threw = true;
    threw_id = b.id;
  } catch (const std::exception& e) {
    threw = true;
    threw_id = -1;
  }
  call.end("parallel_do", nt, live, check_live);
  if (threw && threw_id >= 0) SIM_CHECK("wrong-exception", call.threw.count(threw_id), "the exception of an instance that did not throw");
  if (threw && threw_id == -1)
    SIM_CHECK("wrong-exception", sim::fired(sim::F_THREAD_CREATE) || sim::fired(sim::F_ALLOC), "an exception nothing raised");
  if (threw) {
    sim::probe("do_threw");
    return;
  }
  SIM_CHECK("lost-exception", call.threw.empty(), "an instance threw and parallel_do returned normally");
  for (int i = 0; i < nt; ++i) {
    SIM_CHECK("item-lost", call.finished[i] == 1, "instance " + to_string(i) + " did not run");
    SIM_CHECK("effect-lost", out[i] == 35 + i, "instance " + to_string(i) + " computed " + to_string(out[i]) + " instead of " + to_string(35 + i));
  }
  SIM_CHECK("own-thread", (int)call.tids.size() == nt, to_string(nt) + " instances ran in " + to_string(call.tids.size()) + " threads");
  if (barrier) sim::probe("do_barrier");
}

void one_call(bool faults, bool check_live) {
  switch (sim::pick(3)) {
    case 0:
      return dispatch_each(faults, check_live);
    case 1:
      return reduce_once(faults, check_live);
    default:
      return do_once(faults, check_live);
  }
}

void set_threads() {
  int nt = sim::range(1, 6);
  set_num_threads(nt);
  SIM_CHECK("num-threads", num_threads() == nt, "num_threads() does not return what was set");
  if (sim::chance(20)) {
    bool threw = false;
    try {
      set_num_threads(-sim::pick(3));
    } catch (const std::exception&) {
      threw = true;
    }
    SIM_CHECK("num-threads", threw && num_threads() == nt, "an invalid number of threads was accepted");
  }
}

}  // namespace

SIM_SCENARIO(par_plain) {
  int k = sim::range(1, 3);
  for (int i = 0; i < k; ++i) {
    if (!sim::op_enabled(i)) continue;
    set_threads();
    one_call(false, true);
  }
}

SIM_SCENARIO(par_faults) {
  sim::arm(sim::F_CALLBACK, 1, sim::range(2, 20));
  if (sim::chance(50)) sim::arm(sim::F_THREAD_CREATE, 1, sim::range(2, 8), sim::range(1, 3));
  if (sim::chance(25)) sim::arm(sim::F_ALLOC, 1, sim::range(4, 60), 1);
  int k = sim::range(1, 4);
  for (int i = 0; i < k; ++i) {
    if (!sim::op_enabled(i)) continue;
    set_threads();
    one_call(true, true);
  }
  // once faults stop the primitives work again
  sim::disarm(sim::F_CALLBACK);
  sim::disarm(sim::F_THREAD_CREATE);
  sim::disarm(sim::F_ALLOC);
  set_threads();
  one_call(false, true);
}

// several callers at once, and calls nested in the items of another call
SIM_SCENARIO(par_nested) {
  set_num_threads(sim::range(1, 3));
  int callers = sim::range(1, 3);
  bool faults = sim::chance(30);
  if (faults) sim::arm(sim::F_CALLBACK, 1, sim::range(8, 40));
  std::vector<std::thread> ts;
  for (int c = 1; c < callers; ++c)
    if (sim::op_enabled(c)) ts.emplace_back([&] { one_call(faults, false); });
  if (sim::op_enabled(0)) {
    std::vector<int> outer(sim::range(1, 4));
    std::iota(outer.begin(), outer.end(), 0);
    std::vector<long> res(outer.size(), -1);
    const int m = sim::range(1, 6);
    for_each(outer, [&](int& i) {
      std::vector<long> inner(m);
      std::iota(inner.begin(), inner.end(), i * 100L);
      res[i] = transform_reduce(inner, 0L, [](long a, long b) { return a + b; }, [](long x) { return 2 * x; });
    });
    for (std::size_t i = 0; i < outer.size(); ++i)
      SIM_CHECK("nested", res[i] == 2 * (m * (long)i * 100 + m * (m - 1L) / 2), "nested call " + to_string(i) + " computed " + to_string(res[i]));
    sim::probe("nested_done");
  }
  for (auto& t : ts) t.join();
  SIM_CHECK("thread-leak", sim::live_threads() == 1, "threads left behind");
}

// the number of threads is read from the environment by whoever comes first
SIM_SCENARIO(par_env) {
  int want = sim::range(1, 5);
  bool set = sim::chance(70);
  if (set)
    setenv("SEQUANT_NUM_THREADS", to_string(want).c_str(), 1);
  else
    unsetenv("SEQUANT_NUM_THREADS");
  if (!set) want = (int)std::thread::hardware_concurrency();
  std::vector<std::thread> ts;
  std::vector<int> got(sim::range(1, 3), 0);
  for (auto& g : got) ts.emplace_back([&g] { g = num_threads(); });
  int mine = num_threads();
  for (auto& t : ts) t.join();
  SIM_CHECK("num-threads", mine == want, "num_threads() is " + to_string(mine) + ", expected " + to_string(want));
  for (int g : got) SIM_CHECK("num-threads", g == want, "num_threads() is " + to_string(g) + " in another thread, expected " + to_string(want));
  one_call(false, true);
}
