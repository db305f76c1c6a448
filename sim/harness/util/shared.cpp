// C05: process-wide objects and tables that are created on first use.
#include "rt/sim.hpp"

#include <SeQuant/core/logger.hpp>
#include <SeQuant/core/math.hpp>
#include <SeQuant/core/utility/singleton.hpp>

#include <set>
#include <string>
#include <thread>
#include <vector>

using namespace sequant;
using std::to_string;

namespace {

struct History {
  int constructed = 0, attempts = 0, live = 0, max_live = 0, set_ok = 0, set_refused = 0;
  std::set<const void*> seen;
};
History* H = nullptr;

struct Boom {};

template <int Tag>
struct Body {
  std::vector<long> data;
  long arg;
  explicit Body(long a) : arg(a) {
    {
      sim::NoPreempt np;
      H->attempts++;
    }
    for (int i = 0; i < 4; ++i) {
      data.push_back(a + i);
      if (i == 1) sim::yield();
    }
    bool boom;
    {
      sim::NoPreempt np;
      boom = sim::fire(sim::F_CALLBACK);
    }
    if (boom) throw Boom{};
    sim::NoPreempt np;
    H->constructed++;
    SIM_CHECK("constructed-twice", H->constructed == 1, "a second instance was constructed");
  }
  bool complete() const {
    if (data.size() != 4) return false;
    for (int i = 0; i < 4; ++i)
      if (data[i] != arg + i) return false;
    return true;
  }
};

class Auto : public Singleton<Auto>, public Body<0> {
  friend class Singleton<Auto>;
  Auto() : Body<0>(100) {}
};
class AutoArg : public Singleton<AutoArg>, public Body<1> {
  friend class Singleton<AutoArg>;
  explicit AutoArg(long a = 300) : Body<1>(a) {}
};
class Manual : public Singleton<Manual>, public Body<2> {
  friend class Singleton<Manual>;
  explicit Manual(long a) : Body<2>(a) {}
};

template <typename T>
void check(T* p, const char* how) {
  SIM_CHECK("incomplete", p->complete(), std::string(how) + " returned an object that is not fully constructed");
  sim::NoPreempt np;
  H->seen.insert(p);
  SIM_CHECK("two-instances", H->seen.size() == 1, std::string(how) + " returned another object than before");
}

enum Op { GET, GETP, SET };

template <typename T, bool Default, bool Settable>
void client(const std::vector<int>& ops, int tid) {
  bool known = false;
  for (std::size_t k = 0; k < ops.size(); ++k) {
    if (!sim::op_enabled(tid * 10 + (int)k)) continue;
    try {
      if (ops[k] == GET) {
        try {
          T& x = T::instance();
          check(&x, "instance()");
          known = true;
        } catch (const sequant::Exception&) {
          SIM_CHECK("lost-instance", !Default && !known, "instance() reports no instance");
        }
      } else if (ops[k] == GETP) {
        T* x = T::instance_ptr();
        if (x) {
          check(x, "instance_ptr()");
          known = true;
        } else
          SIM_CHECK("lost-instance", !Default && !known, "instance_ptr() is null");
      } else if constexpr (Settable) {
        try {
          T& x = T::set_instance(1000L + tid);
          check(&x, "set_instance()");
          {
            sim::NoPreempt np;
            H->set_ok++;
            SIM_CHECK("set-twice", H->set_ok == 1, "set_instance() succeeded twice");
          }
          SIM_CHECK("wrong-argument", x.arg == 1000L + tid, "set_instance() did not use the argument");
          known = true;
        } catch (const sequant::Exception&) {
          sim::NoPreempt np;
          H->set_refused++;
          SIM_CHECK("set-refused", H->constructed == 1, "set_instance() refused although there is no instance");
        }
      }
    } catch (const Boom&) {
      // construction failed: nothing may have been published
    }
  }
}

template <typename T, bool Default, bool Settable>
void run() {
  History h;
  H = &h;
  const bool faults = sim::chance(40);
  if (faults) sim::arm(sim::F_CALLBACK, 1, 2, sim::range(1, 3));
  const int nthr = sim::range(2, 5);
  std::vector<std::vector<int>> plans(nthr);
  std::string d;
  for (auto& p : plans) {
    int n = sim::range(1, 4);
    d += "[";
    for (int i = 0; i < n; ++i) {
      p.push_back(sim::pick(Settable ? 3 : 2));
      d += "gps"[p.back()];
    }
    d += "]";
  }
  sim::note("calls per thread: " + d);
  std::vector<std::thread> ts;
  for (int t = 1; t < nthr; ++t) ts.emplace_back([&, t] { client<T, Default, Settable>(plans[t], t); });
  client<T, Default, Settable>(plans[0], 0);
  for (auto& t : ts) t.join();
  sim::disarm(sim::F_CALLBACK);
  if (!Default && h.constructed == 0) {
    SIM_CHECK("lost-instance", T::instance_ptr() == nullptr, "an instance nobody constructed");
    if constexpr (Settable) T::set_instance(5);
  }
  check(&T::instance(), "instance()");
  SIM_CHECK("constructed-twice", h.constructed == 1, "constructed " + to_string(h.constructed) + " times");
  if (h.attempts > 1) sim::probe("construction_retried");
  if (h.set_ok) sim::probe("set_ok");
  if (h.set_refused) sim::probe("set_refused");
  sim::event_num((std::uint64_t)(h.attempts * 100 + h.set_ok * 10 + h.set_refused));
}

}  // namespace

SIM_SCENARIO(singleton) {
  switch (sim::pick(3)) {
    case 0:
      return run<Auto, true, false>();
    case 1:
      return run<AutoArg, true, true>();
    default:
      return run<Manual, false, true>();
  }
}

// the library's own singleton, from threads that have just started
SIM_SCENARIO(logger) {
  std::vector<std::thread> ts;
  std::vector<const Logger*> got(sim::range(2, 5), nullptr);
  for (std::size_t i = 1; i < got.size(); ++i)
    ts.emplace_back([&got, i] {
      Logger& l = Logger::instance();
      SIM_CHECK("incomplete", !l.wick_harness && !l.expand && l.eval.level == 0 && l.eval.stream == nullptr, "logger is not in its initial state");
      got[i] = &l;
    });
  got[0] = &Logger::instance();
  for (auto& t : ts) t.join();
  for (auto* p : got) SIM_CHECK("two-instances", p == got[0], "two loggers");
}

namespace {
// n! as decimal digits by schoolbook arithmetic
std::string fact_ref(int n) {
  std::vector<unsigned> d{1};
  for (int k = 2; k <= n; ++k) {
    unsigned carry = 0;
    for (auto& x : d) {
      unsigned long v = (unsigned long)x * k + carry;
      x = (unsigned)(v % 1000000000ul);
      carry = (unsigned)(v / 1000000000ul);
    }
    if (carry) d.push_back(carry);
  }
  std::string s = to_string(d.back());
  for (int i = (int)d.size() - 2; i >= 0; --i) {
    std::string t = to_string(d[i]);
    s += std::string(9 - t.size(), '0') + t;
  }
  return s;
}
}  // namespace

SIM_SCENARIO(factorials) {
  sim::watch_uaf(true);
  const int nthr = sim::range(2, 5);
  std::vector<std::vector<int>> plans(nthr);
  std::string d;
  for (auto& p : plans) {
    int n = sim::range(1, 5);
    for (int i = 0; i < n; ++i) {
      p.push_back(sim::chance(15) ? sim::range(0, 21) : sim::range(20, 20 + (sim::chance(30) ? 30 : sim::range(2, 6))));
      d += to_string(p.back()) + " ";
    }
    d += "| ";
  }
  sim::note("factorials per thread: " + d);
  auto client = [](const std::vector<int>& p, int t) {
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (!sim::op_enabled(t * 10 + (int)i)) continue;
      const auto v = factorial((std::size_t)p[i]);
      const std::string got = v.str();
      SIM_CHECK("wrong-value", got == fact_ref(p[i]), to_string(p[i]) + "! = " + got);
    }
  };
  std::vector<std::thread> ts;
  for (int t = 1; t < nthr; ++t) ts.emplace_back([&, t] { client(plans[t], t); });
  client(plans[0], 0);
  for (auto& t : ts) t.join();
  for (int n : {0, 1, 20, 21, 22, 25, 40}) SIM_CHECK("wrong-value", factorial(n).str() == fact_ref(n), "afterwards " + to_string(n) + "! is wrong");
}
