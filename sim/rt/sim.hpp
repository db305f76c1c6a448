// Deterministic simulator: API used by the scenarios.
#ifndef SIM_HPP
#define SIM_HPP
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- workload randomness (its own stream; the scheduler draws from another)
std::uint64_t rnd();
inline int pick(int n) { return static_cast<int>(rnd() % static_cast<std::uint64_t>(n)); }
inline int range(int lo, int hi) { return lo + pick(hi - lo + 1); }
inline bool chance(int percent) { return pick(100) < percent; }
template <typename C>
auto& one_of(C& c) {
  return c[static_cast<std::size_t>(pick(static_cast<int>(c.size())))];
}

// ---- plan minimisation: an operation of the generated plan is skipped when
// the replay file drops it.
bool op_enabled(int idx);

// ---- faults: a named fault point the simulator may fire. The n-th query of a
// kind fires or not by the fault stream (rate given per run) or by the replay.
enum Fault : int {
  F_THREAD_CREATE,   // pthread_create fails with EAGAIN
  F_ALLOC,           // operator new throws bad_alloc
  F_SPURIOUS_WAKE,   // condition variable wakes spuriously
  F_CAS_WEAK,        // weak compare-exchange fails spuriously
  F_CALLBACK,        // user-supplied callback throws
  F_STALL,           // thread is stalled for a long time
  F_IO,              // file operation fails / is short
  F_CRASH,           // operation abandoned half-way
  F_COUNT
};
extern const char* const fault_name[F_COUNT];
// rate: fires with probability num/den at each query, at most max_fires in all
void arm(Fault f, int num, int den, int max_fires = 1 << 30);
void disarm(Fault f);
bool fire(Fault f);
unsigned fired(Fault f);
// F_ALLOC / F_THREAD_CREATE fire only inside a window
struct FaultWindow {
  FaultWindow();
  ~FaultWindow();
};

// ---- reporting
[[noreturn]] void violation(const char* cls, const std::string& msg);
// classes that are reported after the run (first one wins) without ending it
void event(const std::string& s);    // goes into the run's history hash
void event_num(std::uint64_t v);
void probe(const char* name);        // reach probe, counted per run
[[noreturn]] void skip(const char* why);  // run proves nothing (counted)
// std::terminate after an allocation failure is not a violation: the code is
// declared noexcept, so ending the program is what it says it does
void exhaustion_may_terminate(bool on);
std::uint64_t seq();                 // global event sequence number
std::string log_text();              // history recorded so far
void note(const std::string& s);     // added to the trace on violation

// true while a race/UAF is fatal for the run
void watch_races(bool on);
void watch_uaf(bool on);

// ---- scheduling
void yield();                        // explicit scheduling point
int live_threads();
int current_tid();
// threads ever created in this run, peak of simultaneously live ones
unsigned threads_created();
unsigned peak_threads();
// Runs fn in a forked copy of the process (single-threaded, no faults) and
// returns the string it returns. Exceptions come back as "!EXC:<what>".
std::string in_fork(const std::function<std::string()>& fn);
std::uint64_t seed();
bool replaying();
void set_max_steps(std::uint64_t n);
// the scenario's own bookkeeping: not preempted, and not seen by the race and
// use-after-free detectors
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};

struct Scenario {
  const char* name;
  void (*fn)();
  Scenario* next;
  Scenario(const char* n, void (*f)());
};
#define SIM_SCENARIO(nm)                                   \
  static void sim_scn_##nm();                              \
  static ::sim::Scenario sim_reg_##nm(#nm, &sim_scn_##nm); \
  static void sim_scn_##nm()

}  // namespace sim

#define SIM_CHECK(cls, cond, msg)                 \
  do {                                            \
    if (!(cond)) ::sim::violation(cls, (msg));    \
  } while (0)

#endif
