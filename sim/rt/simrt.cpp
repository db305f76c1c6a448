// Deterministic simulator runtime.
//
// The program under simulation is ordinary multi-threaded C++ compiled with the
// compiler's ThreadSanitizer instrumentation, but linked against this file
// instead of libtsan: every memory access and atomic operation calls in here,
// and pthread_*, __cxa_guard_*, malloc, clocks and futexes are interposed.
// Exactly one simulated thread runs at any time; which one runs next, which
// fault fires and how the heap is laid out are pure functions of one seed (or
// of a replay file).  On top of that: a happens-before race detector, a
// use-after-free detector, deadlock / no-progress detection.
#include "sim.hpp"

#include <cxxabi.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define PC ((uptr)__builtin_return_address(0))

namespace sim {
const char* const fault_name[F_COUNT] = {"thread_create_failure", "alloc_failure",
                                         "spurious_wakeup",       "weak_cas_failure",
                                         "callback_exception",    "stalled_thread",
                                         "io_error",              "crash"};
}
using namespace sim;

namespace {

// ------------------------------------------------------------------ raw calls
long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall"
               : "=a"(r)
               : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  return r;
}
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0) { return raw6(n, a, b, c, d, 0, 0); }
void* rawmap(uptr addr, size_t len, bool shared = false) {
  int fl = MAP_ANONYMOUS | MAP_NORESERVE | (shared ? MAP_SHARED : MAP_PRIVATE) | (addr ? MAP_FIXED_NOREPLACE : 0);
  long r = raw6(SYS_mmap, (long)addr, (long)len, PROT_READ | PROT_WRITE, fl, -1, 0);
  if (r < 0 && r > -4096) {
    const char m[] = "sim: mmap failed\n";
    raw(SYS_write, 2, (long)m, sizeof m - 1);
    raw(SYS_exit_group, 70);
  }
  return (void*)r;
}
[[noreturn]] void die(const char* m) {
  raw(SYS_write, 2, (long)"sim: ", 5);
  raw(SYS_write, 2, (long)m, (long)strlen(m));
  raw(SYS_write, 2, (long)"\n", 1);
  raw(SYS_exit_group, 70);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ constants
constexpr uptr HEAP = 0x100000000000ull;
constexpr u64 HEAP_SZ = 4ull << 30;
constexpr u64 HEAP_MAX = 600ull << 20;  // more is taken for endless growth
constexpr uptr STACKS = HEAP + HEAP_SZ;
constexpr int MAXT = 64;             // simultaneous thread slots
constexpr u64 STACK_SZ = 64ull << 20;
constexpr uptr STACKS_END = STACKS + MAXT * STACK_SZ;
constexpr uptr GLOB_END = 0x10000000;  // non-PIE image lives below
constexpr uptr SHADOW = 0x200000000000ull;
constexpr uptr SHADOW_G = 0x300000000000ull;

struct Cell {  // shadow of 8 bytes
  u32 w;      // epoch of last write: slot<<24 | clock
  u32 wpc;
  u32 r[3];
  u32 rpc[3];
  u32 sync;   // index of the sync clock (atomics), 0 none
  u8 wmask, rmask[3];
  u8 flags;   // 1 freed, 2 last write atomic, 4<<i read i atomic
  u8 rr;      // round robin
  u16 allocgen;
};
static_assert(sizeof(Cell) == 44);
constexpr u8 C_FREED = 1, C_WATOM = 2;

struct VC {
  u32 c[MAXT];
};

enum State : u8 { S_FREE, S_RUN, S_BLOCKED, S_DONE };
enum Kind : u8 { K_PLAIN, K_CONFLICT, K_ATOMIC, K_SYNC };

struct SwRec {
  u32 tid;   // logical id of the thread that was running
  u32 to;    // logical id of the thread that runs next
  u64 step;  // step count of the former
};

struct Thr {
  int slot;
  u32 id;  // logical id (creation order)
  State st;
  bool detached, joined_by, timed_out;
  volatile int go;
  pthread_t os;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  uptr stk_lo, stk_hi;
  VC vc;
  VC rel_fence;   // clock at last release fence
  bool has_rel_fence;
  VC acq_pend;    // clocks seen by relaxed loads
  u64 steps;
  u64 next_at;    // next step at which a preemption is due (plain steps)
  u32 prio;
  u64 stalled_until;
  uptr wait_on;   // address blocked on
  u8 wait_kind;
  u64 deadline;   // simulated ns, 0 none
  int nopreempt;
  int in_rt;
  u32 clk_dirty;
  SwRec* cursor;
  SwRec* cursor_end;
  int window;     // fault window depth
  const char* blocked_desc;
};

enum { W_MUTEX = 1, W_COND, W_JOIN, W_GUARD, W_ONCE, W_RW, W_FUTEX, W_SLEEP };

struct Mtx {
  uptr addr;
  int owner;  // logical id +1
  int count;
  VC vc;
};

constexpr u32 MAX_SW = 400000, MAX_FL = 20000, NPROBE = 96;
struct Shared {
  int status;  // 0 running/none, 1 ok, 2 violation, 3 skip, 4 internal error
  char cls[64];
  char msg[8192];
  u64 steps, switches, sched_points, conflicts, events, hash, ilv, sim_ns, hist;
  u32 faults[F_COUNT];
  u32 fault_q[F_COUNT];
  u32 created, peak, policy, overflow, forced;
  u32 race_pc[2];
  u32 nprobe;
  struct {
    char name[56];
    u32 n;
  } probes[NPROBE];
  u32 nops, ndisabled;
  u32 nsw, nfl;
  u32 nnote;
  char notes[1 << 18];
  struct {
    u32 kind, idx;
  } fl[MAX_FL];
  SwRec sw[MAX_SW];
};

// ------------------------------------------------------------------ globals
Thr g_thr[MAXT];
__thread Thr* self __attribute__((tls_model("local-exec"))) = nullptr;
bool g_sim = false;        // a simulated run is in progress
bool g_track = false;      // access() does something
bool g_uaf = false, g_race = true;
bool g_ref = false;        // in a reference fork
int g_nlive = 0, g_nrun = 0;
u32 g_nextid = 0;
u64 g_steps = 0, g_maxsteps = 400ull * 1000 * 1000;
u64 g_slack_ns = 0;
u64 g_seq = 0;
u64 g_seed = 0;
u64 g_hash = 1469598103934665603ull, g_ilv = 1469598103934665603ull, g_hist = 1469598103934665603ull;
Shared* g_sh = nullptr;
bool g_replay = false;
pthread_key_t g_exit_key;
Scenario* g_scn = nullptr;

void mix(u64& h, u64 v) {
  h ^= v;
  h *= 1099511628211ull;
  h ^= h >> 29;
}

struct Rng {
  u64 s;
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return next() % n; }
};
Rng g_rs, g_rw, g_rf, g_rl;  // scheduler, workload, faults, layout

// policy of this run
enum Pol { P_SYNC, P_RAND, P_PCT, P_CONF, P_SERIAL, P_MIX, P_NONE };
Pol g_pol = P_NONE;
u32 g_psync = 0, g_pconf = 0, g_patom = 0;  // in 1/1024
u32 g_gaplog = 10;                           // mean gap of plain preemptions 2^k; 0: never
u32 g_pstall = 0;

// faults
struct FaultCfg {
  bool armed;
  u32 num, den, max, fired, queries;
};
FaultCfg g_fl[F_COUNT];
u32 g_replay_fl_n = 0;
struct {
  u32 kind, idx;
}* g_replay_fl = nullptr;
int* g_disabled = nullptr;
u32 g_ndisabled = 0;

// ------------------------------------------------------------------ shadow
inline Cell* cell(uptr a) {
  if (a - HEAP < (STACKS_END - HEAP)) return (Cell*)SHADOW + ((a - HEAP) >> 3);
  if (a < GLOB_END) return (Cell*)SHADOW_G + (a >> 3);
  return nullptr;
}
VC* g_vcpool = nullptr;
u32 g_vcn = 1, g_vcfree = 0;
constexpr u32 VCMAX = 1u << 20;
u32* g_vcnext = nullptr;

u32 vc_alloc() {
  u32 i;
  if (g_vcfree) {
    i = g_vcfree;
    g_vcfree = g_vcnext[i];
  } else {
    if (g_vcn >= VCMAX) {
      g_race = false;
      if (g_sh) g_sh->overflow++;
      return 1;
    }
    i = g_vcn++;
  }
  memset(&g_vcpool[i], 0, sizeof(VC));
  return i;
}
void vc_free(u32 i) {
  if (i <= 1) return;
  g_vcnext[i] = g_vcfree;
  g_vcfree = i;
}
inline void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
// sync clocks of addresses outside the shadowed regions
struct OutSync {
  uptr a;
  u32 vc;
} g_out[4096];
u32* sync_slot(uptr a) {
  Cell* c = cell(a);
  if (c) return &c->sync;
  u32 h = (u32)((a >> 3) * 2654435761u) & 4095;
  for (u32 i = 0; i < 4096; ++i, h = (h + 1) & 4095) {
    if (g_out[h].a == (a >> 3)) return &g_out[h].vc;
    if (!g_out[h].a) {
      g_out[h].a = a >> 3;
      return &g_out[h].vc;
    }
  }
  die("sync table full");
}
inline void hb_acquire(Thr* t, uptr a) {
  u32 i = *sync_slot(a);
  if (i) vc_join(t->vc, g_vcpool[i]);
}
inline void hb_release(Thr* t, uptr a, bool merge = true) {
  u32* s = sync_slot(a);
  if (!*s) *s = vc_alloc();
  if (merge)
    vc_join(g_vcpool[*s], t->vc);
  else
    g_vcpool[*s] = t->vc;
  t->vc.c[t->slot]++;
}
void shadow_clear(uptr a, u64 n) {
  Cell* c = cell(a & ~7ull);
  Cell* e = c + ((n + 7) >> 3);
  for (; c < e; ++c) {
    if (c->sync) vc_free(c->sync);
    memset(c, 0, sizeof *c);
  }
}

// ------------------------------------------------------------------ output
[[noreturn]] void finish(int status) {
  Shared* s = g_sh;
  if (g_ref) raw(SYS_exit_group, 71);
  if (s->status == 0) s->status = status;
  s->steps = g_steps;
  s->hash = g_hash;
  s->ilv = g_ilv;
  s->hist = g_hist;
  s->events = g_seq;
  s->sim_ns = g_steps * 20 + g_slack_ns;
  for (int i = 0; i < F_COUNT; ++i) {
    s->faults[i] = g_fl[i].fired;
    s->fault_q[i] = g_fl[i].queries;
  }
  raw(SYS_exit_group, 0);
  __builtin_unreachable();
}
int g_ref_fd = -1;
[[noreturn]] void report(const char* cls, const char* msg, size_t n) {
  if (g_ref) {
    char b[600];
    int k = snprintf(b, sizeof b, "!VIOL:%s:%.*s", cls, (int)(n > 400 ? 400 : n), msg);
    raw(SYS_write, g_ref_fd, (long)b, k);
    raw(SYS_exit_group, 0);
  }
  if (!g_sh) die(msg);
  if (g_sh->status == 0) {
    strncpy(g_sh->cls, cls, sizeof g_sh->cls - 1);
    if (n > sizeof g_sh->msg - 1) n = sizeof g_sh->msg - 1;
    memcpy(g_sh->msg, msg, n);
    g_sh->msg[n] = 0;
    g_sh->status = 2;
  }
  finish(2);
}
[[noreturn]] void reportf(const char* cls, const char* fmt, ...) {
  static char b[8000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  report(cls, b, (size_t)n);
}

// ------------------------------------------------------------------ scheduler
u64 now_ns() { return 1000000000ull * 1700000000ull + g_steps * 20 + g_slack_ns; }

void wait_go(Thr* t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void give(Thr* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1);
}

u64 gap() {
  if (!g_gaplog) return ~0ull >> 2;
  u64 m = 1ull << g_gaplog;
  // geometric-ish with heavy spread
  return 1 + g_rs.below(2 * m);
}

// due timed waiters become runnable
void wake_due(bool force) {
  u64 now = now_ns();
  Thr* best = nullptr;
  for (auto& t : g_thr)
    if (t.st == S_BLOCKED && t.deadline) {
      if (t.deadline <= now) {
        t.st = S_RUN;
        t.timed_out = true;
        t.deadline = 0;
        g_nrun++;
      } else if (!best || t.deadline < best->deadline)
        best = &t;
    }
  if (force && g_nrun == 0 && best) {
    g_slack_ns += best->deadline - now;
    best->st = S_RUN;
    best->timed_out = true;
    best->deadline = 0;
    g_nrun++;
  }
}

const char* wait_name(int k) {
  static const char* n[] = {"-", "mutex", "condition variable", "join", "static-init guard", "call_once", "rwlock", "futex", "sleep"};
  return n[k];
}

[[noreturn]] void deadlock() {
  static char b[2000];
  int n = snprintf(b, sizeof b, "no thread can run:");
  for (auto& t : g_thr)
    if (t.st == S_BLOCKED)
      n += snprintf(b + n, sizeof b - n, " T%u waits for %s;", t.id, wait_name(t.wait_kind));
  report("deadlock", b, (size_t)n);
}

Thr* by_id(u32 id) {
  for (auto& t : g_thr)
    if (t.st != S_FREE && t.id == id) return &t;
  return nullptr;
}

Thr* choose(Thr* cur, bool must_leave) {
  // candidates
  Thr* c[MAXT];
  int n = 0;
  Thr* s[MAXT];
  int ns = 0;
  for (auto& t : g_thr)
    if (t.st == S_RUN && !(must_leave && &t == cur)) {
      if (t.stalled_until > g_steps && !g_replay)
        s[ns++] = &t;
      else
        c[n++] = &t;
    }
  if (!n) {
    for (int i = 0; i < ns; ++i) c[i] = s[i];
    n = ns;
  }
  if (!n) return nullptr;
  if (g_replay) {
    // lowest logical id by default
    Thr* b = c[0];
    for (int i = 1; i < n; ++i)
      if (c[i]->id < b->id) b = c[i];
    return b;
  }
  // order by id so slot reuse does not matter
  for (int i = 1; i < n; ++i)
    for (int j = i; j > 0 && c[j]->id < c[j - 1]->id; --j) {
      Thr* x = c[j];
      c[j] = c[j - 1];
      c[j - 1] = x;
    }
  if (g_pol == P_NONE) return c[0];
  if (g_pol == P_PCT || g_pol == P_SERIAL) {
    Thr* b = c[0];
    for (int i = 1; i < n; ++i)
      if (c[i]->prio > b->prio) b = c[i];
    return b;
  }
  return c[g_rs.below((u64)n)];
}

void record(Thr* from, Thr* to) {
  if (g_ref) return;
  if (g_sh->nsw < MAX_SW)
    g_sh->sw[g_sh->nsw++] = SwRec{from->id, to->id, from->steps};
  else
    g_sh->overflow++;
}

void do_switch(Thr* me, Thr* to) {
  g_sh->switches++;
  mix(g_hash, ((u64)me->id << 40) ^ ((u64)to->id << 52) ^ me->steps);
  give(to);
}

// me keeps being runnable or is blocked/done; returns when me runs again
void reschedule(Thr* me, bool must_leave) {
  me->steps++;
  g_steps++;
  for (;;) {
    if (g_nrun == 0) wake_due(true);
    Thr* to = nullptr;
    if (g_replay && me->cursor < me->cursor_end) {
      while (me->cursor < me->cursor_end && me->cursor->step < me->steps) me->cursor++;
      if (me->cursor < me->cursor_end && me->cursor->step == me->steps) {
        Thr* w = by_id(me->cursor->to);
        if (w && w->st == S_RUN && !(must_leave && w == me)) to = w;
        me->cursor++;
      }
    }
    if (!to) to = (g_replay && !must_leave && me->st == S_RUN) ? me : choose(me, must_leave);
    if (!to) {
      if (must_leave && me->st == S_RUN) to = me;
    }
    if (!to) {
      bool any = false;
      for (auto& t : g_thr)
        if (t.st == S_BLOCKED) any = true;
      if (me->st == S_DONE && !any) return;
      deadlock();
    }
    if (to == me) {
      return;
    }
    record(me, to);
    do_switch(me, to);
    if (me->st == S_DONE) return;
    wait_go(me);
    return;
  }
}

void block(Thr* me, int kind, uptr on, u64 deadline = 0) {
  me->st = S_BLOCKED;
  me->wait_kind = (u8)kind;
  me->wait_on = on;
  me->deadline = deadline;
  me->timed_out = false;
  g_nrun--;
  reschedule(me, true);
  // running again: st was set to S_RUN by the waker
  me->wait_on = 0;
}
void unblock(Thr* t) {
  t->st = S_RUN;
  t->deadline = 0;
  g_nrun++;
}
int wake_all(int kind, uptr on, int max = MAXT) {
  // waiters in id order (choice among them is left to the scheduler when max
  // is limited)
  int n = 0;
  if (max >= MAXT) {
    for (auto& t : g_thr)
      if (t.st == S_BLOCKED && t.wait_kind == kind && t.wait_on == on) unblock(&t), ++n;
    return n;
  }
  while (n < max) {
    Thr* w[MAXT];
    int k = 0;
    for (auto& t : g_thr)
      if (t.st == S_BLOCKED && t.wait_kind == kind && t.wait_on == on) w[k++] = &t;
    if (!k) break;
    for (int i = 1; i < k; ++i)
      for (int j = i; j > 0 && w[j]->id < w[j - 1]->id; --j) {
        Thr* x = w[j];
        w[j] = w[j - 1];
        w[j - 1] = x;
      }
    // a pure function of the seed and the waker's position: same in a replay
    u64 h = g_seed;
    mix(h, self ? self->id : 0);
    mix(h, self ? self->steps : 0);
    unblock(w[g_ref ? 0 : (h >> 17) % (u64)k]);
    ++n;
  }
  return n;
}

inline void step(Thr* t, Kind k, bool own_stack) {
  t->steps++;
  if (UNLIKELY(++g_steps > g_maxsteps)) {
    reportf("no-progress", "no completion within %llu simulated steps", (unsigned long long)g_maxsteps);
  }
  if (g_nrun < 2 || t->nopreempt) return;
  if (UNLIKELY(g_replay)) {
    if (t->cursor < t->cursor_end && t->cursor->step <= t->steps) {
      t->steps--;
      g_steps--;
      reschedule(t, false);
    }
    return;
  }
  bool due = false;
  switch (k) {
    case K_SYNC:
      due = g_psync && g_rs.below(1024) < g_psync;
      break;
    case K_ATOMIC:
      due = g_patom && g_rs.below(1024) < g_patom;
      break;
    case K_CONFLICT:
      due = g_pconf && g_rs.below(1024) < g_pconf;
      break;
    case K_PLAIN:
      break;
  }
  if (!due && t->steps >= t->next_at && !own_stack) {
    due = true;
  }
  if (!due) return;
  t->next_at = t->steps + gap();
  if (g_pol == P_PCT) t->prio = (u32)g_rs.below(1u << 20);
  if (g_pol == P_SERIAL) return;
  if (g_pstall && g_rs.below(1024) < g_pstall) {
    t->stalled_until = g_steps + (1ull << (8 + g_rs.below(14)));
    g_fl[F_STALL].fired++;
    g_fl[F_STALL].queries++;
  }
  // the switch itself happens at the same step number it is recorded with
  t->steps--;
  g_steps--;
  reschedule(t, false);
}

inline bool own_stack(Thr* t, uptr a) { return a - t->stk_lo < t->stk_hi - t->stk_lo; }

// ------------------------------------------------------------------ accesses
void race(Thr* t, uptr a, u32 pc1, u32 ep, u32 pc2, const char* what) {
  if (g_ref || !g_race) return;
  g_sh->race_pc[0] = pc1;
  g_sh->race_pc[1] = pc2;
  u32 other = 0;
  for (auto& x : g_thr)
    if (x.slot == (int)(ep >> 24) && x.st != S_FREE) other = x.id;
  reportf("data-race", "%s by T%u and T%u without ordering, pcs 0x%x 0x%x", what, t->id, other, pc1, pc2);
  (void)a;
}

constexpr unsigned A_W = 1, A_ATOM = 2;

bool check_cell(Thr* t, Cell* c, uptr a, u8 m, unsigned fl, u32 pc) {
  bool conflict = false;
  if (UNLIKELY(c->flags & C_FREED)) {
    if (g_uaf && !g_ref) {
      g_sh->race_pc[0] = pc;
      g_sh->race_pc[1] = c->wpc;
      reportf("use-after-free", "%s of freed memory by T%u, pcs 0x%x 0x%x", (fl & A_W) ? "write" : "read", t->id, pc, c->wpc);
    }
    return false;
  }
  if (g_nlive < 2) return false;
  u32 me = (u32)t->slot;
  u32 ep = (me << 24) | (t->vc.c[me] & 0xffffff);
  if (c->w) {
    u32 s = c->w >> 24;
    if (s != me && (c->wmask & m)) {
      conflict = true;
      if ((c->w & 0xffffff) > t->vc.c[s] && !((fl & A_ATOM) && (c->flags & C_WATOM)))
        race(t, a, pc, c->w, c->wpc, (fl & A_W) ? "write/write" : "read/write");
    }
  }
  if (fl & A_W) {
    for (int i = 0; i < 3; ++i)
      if (c->r[i]) {
        u32 s = c->r[i] >> 24;
        if (s != me && (c->rmask[i] & m)) {
          conflict = true;
          if ((c->r[i] & 0xffffff) > t->vc.c[s] && !((fl & A_ATOM) && (c->flags & (4 << i))))
            race(t, a, pc, c->r[i], c->rpc[i], "write/read");
        }
      }
    if (c->w == ep && !(fl & A_ATOM) == !(c->flags & C_WATOM))
      c->wmask |= m;
    else {
      c->w = ep;
      c->wmask = m;
    }
    c->wpc = pc;
    c->flags = (u8)((c->flags & ~C_WATOM) | ((fl & A_ATOM) ? C_WATOM : 0));
  } else {
    int k = -1;
    for (int i = 0; i < 3 && k < 0; ++i)
      if (c->r[i] && (c->r[i] >> 24) == me && !(fl & A_ATOM) == !(c->flags & (4 << i))) k = i;
    for (int i = 0; i < 3 && k < 0; ++i)
      if (!c->r[i]) k = i;
    for (int i = 0; i < 3 && k < 0; ++i)
      if ((c->r[i] & 0xffffff) <= t->vc.c[c->r[i] >> 24]) k = i;
    if (k < 0) {
      k = c->rr % 3;
      c->rr++;
    }
    if (c->r[k] == ep)
      c->rmask[k] |= m;
    else {
      c->r[k] = ep;
      c->rmask[k] = m;
    }
    c->rpc[k] = pc;
    c->flags = (u8)((c->flags & ~(4 << k)) | ((fl & A_ATOM) ? (4 << k) : 0));
  }
  return conflict;
}

void access_slow(uptr a, u64 sz, unsigned fl, uptr pc) {
  Thr* t = self;
  if (!t || t->in_rt || t->nopreempt) return;
  t->in_rt = 1;
  bool conflict = false;
  u64 left = sz;
  uptr p = a;
  while (left) {
    u64 off = p & 7;
    u64 n = 8 - off;
    if (n > left) n = left;
    Cell* c = cell(p);
    if (c) conflict |= check_cell(t, c, p, (u8)(((1u << n) - 1) << off), fl, (u32)pc);
    p += n;
    left -= n;
  }
  if (g_nlive > 1) {
    if (conflict) g_sh->conflicts++;
    bool os = own_stack(t, a);
    if (conflict) mix(g_ilv, ((u64)t->id << 32) ^ (u64)pc);
    step(t, conflict ? K_CONFLICT : K_PLAIN, os);
  }
  t->in_rt = 0;
}
inline void access(uptr a, u64 sz, unsigned fl, uptr pc) {
  if (LIKELY(!g_track)) return;
  access_slow(a, sz, fl, pc);
}

void sync_step(Thr* t, uptr pc) {
  mix(g_ilv, ((u64)t->id << 40) ^ (u64)pc ^ 0x5151);
  if (g_sh) g_sh->sched_points++;
  step(t, K_SYNC, false);
}
void atomic_pre(uptr a, u64 sz, unsigned fl, uptr pc) {
  if (!g_track) return;
  Thr* t = self;
  if (!t || t->in_rt || t->nopreempt) return;
  t->in_rt = 1;
  if (g_nlive > 1) {
    g_sh->sched_points++;
    mix(g_ilv, ((u64)t->id << 36) ^ (u64)pc);
    step(t, K_ATOMIC, false);
  }
  for (u64 i = 0; i < sz; i += 8) {
    u64 off = (a + i) & 7;
    u64 n = sz - i > 8 ? 8 : sz - i;
    if (n + off > 8) n = 8 - off;
    Cell* c = cell(a + i);
    if (c) check_cell(t, c, a + i, (u8)(((1u << n) - 1) << off), fl | A_ATOM, (u32)pc);
  }
  t->in_rt = 0;
}
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void atomic_sync_load(uptr a, int mo) {
  Thr* t = self;
  if (!g_sim || !t) return;
  if (is_acq(mo))
    hb_acquire(t, a);
  else {
    u32 i = *sync_slot(a);
    if (i) vc_join(t->acq_pend, g_vcpool[i]);
  }
}
void atomic_sync_store(uptr a, int mo, bool rmw) {
  Thr* t = self;
  if (!g_sim || !t) return;
  if (is_rel(mo))
    hb_release(t, a, rmw);
  else if (t->has_rel_fence) {
    u32* s = sync_slot(a);
    if (!*s) *s = vc_alloc();
    if (rmw)
      vc_join(g_vcpool[*s], t->rel_fence);
    else
      g_vcpool[*s] = t->rel_fence;
  } else if (!rmw) {
    u32* s = sync_slot(a);
    if (*s > 1) memset(&g_vcpool[*s], 0, sizeof(VC));
  }
}

// ------------------------------------------------------------------ faults
bool fire_at(Fault f) {
  FaultCfg& c = g_fl[f];
  if (!c.armed || g_ref) return false;
  u32 idx = c.queries++;
  bool hit = false;
  if (g_replay) {
    for (u32 i = 0; i < g_replay_fl_n; ++i)
      if (g_replay_fl[i].kind == (u32)f && g_replay_fl[i].idx == idx) hit = true;
  } else if (c.fired < c.max) {
    hit = g_rf.below(c.den) < c.num;
  }
  if (hit) {
    c.fired++;
    mix(g_hash, 0xFA000000ull + ((u64)f << 32) + idx);
    if (g_sh->nfl < MAX_FL) {
      g_sh->fl[g_sh->nfl].kind = (u32)f;
      g_sh->fl[g_sh->nfl].idx = idx;
      g_sh->nfl++;
    }
  }
  return hit;
}

void update_track() { g_track = g_sim && (g_nlive > 1 || g_uaf); }

// ------------------------------------------------------------------ mutexes
constexpr u32 NMTX = 1 << 15;
Mtx* g_mtx = nullptr;
Mtx* mtx(uptr a) {
  u32 h = (u32)((a >> 3) * 2654435761u) & (NMTX - 1);
  for (u32 i = 0; i < NMTX; ++i, h = (h + 1) & (NMTX - 1)) {
    if (g_mtx[h].addr == a) return &g_mtx[h];
    if (!g_mtx[h].addr) {
      g_mtx[h].addr = a;
      return &g_mtx[h];
    }
  }
  die("mutex table full");
}

}  // namespace

// ======================================================== TSan entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                   \
  void __tsan_read##n(void* p) { access((uptr)p, n, 0, PC); }                   \
  void __tsan_write##n(void* p) { access((uptr)p, n, A_W, PC); }                \
  void __tsan_unaligned_read##n(void* p) { access((uptr)p, n, 0, PC); }         \
  void __tsan_unaligned_write##n(void* p) { access((uptr)p, n, A_W, PC); }      \
  void __tsan_volatile_read##n(void* p) { access((uptr)p, n, 0, PC); }          \
  void __tsan_volatile_write##n(void* p) { access((uptr)p, n, A_W, PC); }       \
  void __tsan_unaligned_volatile_read##n(void* p) { access((uptr)p, n, 0, PC); }\
  void __tsan_unaligned_volatile_write##n(void* p) { access((uptr)p, n, A_W, PC); }\
  void __tsan_read_write##n(void* p) { access((uptr)p, n, A_W, PC); }           \
  void __tsan_unaligned_read_write##n(void* p) { access((uptr)p, n, A_W, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, uptr n) { access((uptr)p, n, 0, PC); }
void __tsan_write_range(void* p, uptr n) { access((uptr)p, n, A_W, PC); }
void __tsan_vptr_read(void** p) { access((uptr)p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access((uptr)p, 8, A_W, PC);
}
void* __tsan_memcpy(void* d, const void* s, uptr n) {
  access((uptr)s, n, 0, PC);
  access((uptr)d, n, A_W, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, uptr n) {
  access((uptr)s, n, 0, PC);
  access((uptr)d, n, A_W, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, uptr n) {
  access((uptr)d, n, A_W, PC);
  return memset(d, v, n);
}
// libstdc++'s annotations of its own spin locks
void __tsan_acquire(void* a) {
  if (g_sim && self) hb_acquire(self, (uptr)a);
}
void __tsan_release(void* a) {
  if (g_sim && self) hb_release(self, (uptr)a);
}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* a, unsigned, int) { __tsan_acquire(a); }
int __tsan_mutex_pre_unlock(void* a, unsigned) {
  __tsan_release(a);
  return 0;
}
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

#define ATOM(bits, T)                                                               \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                       \
    atomic_pre((uptr)a, sizeof(T), 0, PC);                                          \
    atomic_sync_load((uptr)a, mo);                                                  \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                    \
  }                                                                                 \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                    \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_store((uptr)a, mo, false);                                          \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                 \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                    \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                             \
  }                                                                                 \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                   \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                 \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                   \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                 \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                   \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                 \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                    \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                               \
  }                                                                                 \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                   \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                 \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                  \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    atomic_sync_load((uptr)a, mo);                                                  \
    atomic_sync_store((uptr)a, mo, true);                                           \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                             \
  }                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    T e = *c;                                                                       \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) {                                                                       \
      atomic_sync_load((uptr)a, mo);                                                \
      atomic_sync_store((uptr)a, mo, true);                                         \
    } else {                                                                        \
      atomic_sync_load((uptr)a, fmo);                                               \
      *c = e;                                                                       \
    }                                                                               \
    return ok;                                                                      \
  }                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    atomic_pre((uptr)a, sizeof(T), A_W, PC);                                        \
    T e = *c;                                                                       \
    bool ok = false;                                                                \
    if (self && g_sim && g_nlive > 1 && fire_at(F_CAS_WEAK))                        \
      e = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                     \
    else                                                                            \
      ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) {                                                                       \
      atomic_sync_load((uptr)a, mo);                                                \
      atomic_sync_store((uptr)a, mo, true);                                         \
    } else {                                                                        \
      atomic_sync_load((uptr)a, fmo);                                               \
      *c = e;                                                                       \
    }                                                                               \
    return ok;                                                                      \
  }                                                                                 \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    T e = c;                                                                        \
    __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);               \
    return e;                                                                       \
  }
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  Thr* t = self;
  if (!g_sim || !t) return;
  if (is_acq(mo)) vc_join(t->vc, t->acq_pend);
  if (is_rel(mo)) {
    t->rel_fence = t->vc;
    t->has_rel_fence = true;
    t->vc.c[t->slot]++;
  }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ======================================================== heap
namespace {
struct Hdr {
  u64 size;   // usable
  u32 magic, cls;
};
static_assert(sizeof(Hdr) == 16);
constexpr u32 MAGIC = 0x51AB51AB, FREEMAGIC = 0xDEADF4EE;
constexpr int NCLS = 96;
struct FreeList {
  uptr* v;
  u32 n;
};
FreeList g_free[NCLS];
uptr g_brk = 0;
volatile int g_hlock = 0;
u32 g_layout = 0;  // 0 plain LIFO, 1 random reuse, 2 random gaps too
constexpr u32 FLCAP = 1u << 20;
// quarantine
constexpr u32 QN = 8192;
uptr* g_q = nullptr;
u32 g_qh = 0, g_qn = 0;
u64 g_qbytes = 0;
bool g_heap_ready = false;
u64 g_alloc_bytes = 0;

void hlock() {
  while (__atomic_exchange_n(&g_hlock, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield);
}
void hunlock() { __atomic_store_n(&g_hlock, 0, __ATOMIC_RELEASE); }

u32 cls_of(u64 n, u64& sz) {
  if (n <= 1024) {
    u32 c = (u32)((n + 15) / 16);
    if (!c) c = 1;
    sz = c * 16;
    return c;  // 1..64
  }
  u32 c = 65;
  u64 s = 1536;
  while (s < n) {
    s = (c & 1) ? s / 3 * 4 : s / 2 * 3;
    ++c;
  }
  sz = s;
  return c;
}

void heap_init() {
  rawmap(HEAP, STACKS_END - HEAP);
  rawmap(SHADOW, ((STACKS_END - HEAP) >> 3) * sizeof(Cell));
  rawmap(SHADOW_G, (GLOB_END >> 3) * sizeof(Cell));
  uptr tables = (uptr)rawmap(0, NCLS * (u64)FLCAP * 8);
  for (int i = 0; i < NCLS; ++i) g_free[i] = FreeList{(uptr*)tables + (u64)i * FLCAP, 0};
  g_q = (uptr*)rawmap(0, QN * 8);
  g_vcpool = (VC*)rawmap(0, (u64)VCMAX * sizeof(VC));
  g_vcnext = (u32*)rawmap(0, VCMAX * 4ull);
  g_vcn = 2;
  g_mtx = (Mtx*)rawmap(0, NMTX * sizeof(Mtx));
  g_brk = HEAP + 64;
  g_heap_ready = true;
}

void push_free(uptr p) {
  Hdr* h = (Hdr*)(p - 16);
  FreeList& f = g_free[h->cls];
  if (f.n < FLCAP) f.v[f.n++] = p;
}

void* do_alloc(u64 n, u64 align) {
  if (!g_heap_ready) heap_init();
  if (n > HEAP_SZ / 2) return nullptr;
  u64 sz;
  u32 c = cls_of(n + (align > 16 ? align : 0), sz);
  if (c >= NCLS) return nullptr;
  hlock();
  uptr p = 0;
  FreeList& f = g_free[c];
  if (f.n) {
    u32 i = f.n - 1;
    if (g_layout && g_sim) i = (u32)g_rl.below(f.n);
    p = f.v[i];
    f.v[i] = f.v[--f.n];
  } else {
    if (g_layout >= 2 && g_sim) g_brk += 16 * g_rl.below(64);
    uptr b = g_brk;
    if (b + 16 + sz + 64 > HEAP + HEAP_SZ) {
      hunlock();
      return nullptr;
    }
    if (g_sim && b - HEAP > HEAP_MAX) {
      hunlock();
      reportf("memory", "more than %llu MB in use", (unsigned long long)(HEAP_MAX >> 20));
    }
    g_brk = b + 16 + sz;
    p = b + 16;
    ((Hdr*)b)->cls = c;
    ((Hdr*)b)->size = sz;
  }
  ((Hdr*)(p - 16))->magic = MAGIC;
  g_alloc_bytes += sz;
  hunlock();
  if (g_sim) shadow_clear(p, sz);
  if (align > 16) {
    uptr q = (p + align - 1) & ~(align - 1);
    if (q != p) {
      // header of an inner pointer: size 0, cls holds the offset
      Hdr* h = (Hdr*)(q - 16);
      h->size = ((Hdr*)(p - 16))->size - (q - p);
      h->magic = MAGIC + 1;
      h->cls = (u32)(q - p);
    }
    return (void*)q;
  }
  return (void*)p;
}
void do_free(void* v, uptr pc) {
  if (!v) return;
  uptr p = (uptr)v;
  if (p - HEAP >= HEAP_SZ) return;  // not ours (early ld.so)
  Hdr* h = (Hdr*)(p - 16);
  if (h->magic == MAGIC + 1) {
    p -= h->cls;
    h = (Hdr*)(p - 16);
  }
  if (h->magic != MAGIC) {
    if (g_sim && g_sh) reportf("double-free", "free of %s pointer, pc 0x%x", h->magic == FREEMAGIC ? "already freed" : "invalid", (u32)pc);
    die("bad free");
  }
  if (g_sim && self && !self->in_rt && g_track) {
    Thr* t = self;
    t->in_rt = 1;
    // the free is a write of the whole block
    Cell* c = cell(p);
    u64 n = h->size >> 3;
    for (u64 i = 0; i < n; ++i) {
      if (i < 512 && g_nlive > 1 && !t->nopreempt) check_cell(t, c + i, p + 8 * i, 0xff, A_W, (u32)pc);
      c[i].flags |= C_FREED;
      c[i].wpc = (u32)pc;
    }
    t->in_rt = 0;
  }
  hlock();
  h->magic = FREEMAGIC;
  if (g_sim && g_uaf) {
    if (g_qn == QN || g_qbytes > (32u << 20)) {
      do {
        uptr o = g_q[g_qh];
        g_qh = (g_qh + 1) % QN;
        --g_qn;
        g_qbytes -= ((Hdr*)(o - 16))->size;
        push_free(o);
      } while (g_qn && g_qbytes > (32u << 20));
    }
    g_q[(g_qh + g_qn++) % QN] = p;
    g_qbytes += h->size;
  } else
    push_free(p);
  hunlock();
}
u64 usable(void* v) {
  Hdr* h = (Hdr*)((uptr)v - 16);
  return h->size;
}
bool alloc_fault() {
  if (LIKELY(!g_fl[F_ALLOC].armed)) return false;
  Thr* t = self;
  if (!t || !t->window || t->nopreempt || t->in_rt) return false;
  return fire_at(F_ALLOC);
}
}  // namespace

extern "C" {
void* malloc(size_t n) {
  void* p = do_alloc(n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) { do_free(p, PC); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = do_alloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) {
    free(p);
    return nullptr;
  }
  u64 u = usable(p);
  if (n <= u && n * 2 >= u) return p;
  void* q = do_alloc(n, 16);
  if (!q) return nullptr;
  memcpy(q, p, u < n ? u : n);
  do_free(p, PC);
  return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al < 16 ? 16 : al); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al < 16 ? 16 : al); }
int posix_memalign(void** o, size_t al, size_t n) {
  *o = do_alloc(n, al < 16 ? 16 : al);
  return *o ? 0 : ENOMEM;
}
void* valloc(size_t n) { return do_alloc(n, 4096); }
void* pvalloc(size_t n) { return do_alloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}
void* operator new(size_t n) {
  if (alloc_fault()) throw std::bad_alloc();
  void* p = do_alloc(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc_fault() ? nullptr : do_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc_fault() ? nullptr : do_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) {
  if (alloc_fault()) throw std::bad_alloc();
  void* p = do_alloc(n, (u64)a < 16 ? 16 : (u64)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { do_free(p, PC); }
void operator delete[](void* p) noexcept { do_free(p, PC); }
void operator delete(void* p, size_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, PC); }

// ======================================================== pthread layer
namespace {
template <typename F>
F real(const char* n) {
  F f = (F)dlsym(RTLD_NEXT, n);
  if (!f) die(n);
  return f;
}
#define REAL(name) \
  static auto real_##name = real<decltype(&name)>(#name)

struct RtGuard {
  Thr* t;
  explicit RtGuard(Thr* t) : t(t) { t->in_rt++; }
  ~RtGuard() { t->in_rt--; }
};

int mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

int lock_impl(pthread_mutex_t* m, uptr pc, bool tryl, u64 deadline) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  Mtx* x = mtx((uptr)m);
  if (x->owner == (int)t->id + 1) {
    if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
      x->count++;
      return 0;
    }
    if (tryl) return EBUSY;
    if (!deadline) reportf("deadlock", "T%u locks a non-recursive mutex it already holds, pc 0x%x", t->id, (u32)pc);
  }
  if (g_nlive > 1) sync_step(t, pc);
  while (x->owner) {
    if (tryl) return EBUSY;
    block(t, W_MUTEX, (uptr)m, deadline);
    if (t->timed_out && x->owner) return ETIMEDOUT;
  }
  x->owner = (int)t->id + 1;
  x->count = 1;
  vc_join(t->vc, x->vc);
  return 0;
}
int unlock_impl(pthread_mutex_t* m, uptr pc, bool quiet = false) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  Mtx* x = mtx((uptr)m);
  if (x->owner != (int)t->id + 1) return EPERM;
  if (--x->count) return 0;
  x->owner = 0;
  vc_join(x->vc, t->vc);
  t->vc.c[t->slot]++;
  wake_all(W_MUTEX, (uptr)m);
  if (g_nlive > 1 && !quiet) sync_step(t, pc);
  return 0;
}

int unlock_all(pthread_mutex_t* m) {
  Mtx* x = mtx((uptr)m);
  int n = x->count;
  x->count = 1;
  unlock_impl(m, 0, true);
  return n;
}

int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, uptr pc) {
  Thr* t = self;
  RtGuard g(t);
  bool spurious = fire_at(F_SPURIOUS_WAKE);
  int n = unlock_all(m);
  bool to = false;
  if (spurious) {
    if (g_nlive > 1) sync_step(t, pc);
  } else {
    block(t, W_COND, (uptr)c, deadline);
    to = t->timed_out;
  }
  lock_impl(m, pc, false, 0);
  mtx((uptr)m)->count = n;
  return to ? ETIMEDOUT : 0;
}

struct StartArg {
  Thr* t;
};

void thread_end(Thr* t) {
  // last code of the simulated thread (after its thread_local destructors)
  t->in_rt++;
  t->st = S_DONE;
  g_nrun--;
  g_nlive--;
  update_track();
  for (auto& w : g_thr)
    if (w.st == S_BLOCKED && w.wait_kind == W_JOIN && w.wait_on == (uptr)t) unblock(&w);
  mix(g_hash, 0xE0D ^ t->id);
  reschedule(t, true);
}
void exit_key_dtor(void* p) {
  Thr* t = (Thr*)p;
  self = nullptr;
  thread_end(t);
}

extern "C" void* trampoline(void* p) {
  Thr* t = (Thr*)p;
  self = t;
  t->in_rt = 1;
  pthread_setspecific(g_exit_key, t);
  wait_go(t);
  t->in_rt = 0;
  t->ret = t->fn(t->arg);
  return nullptr;
}

SwRec* replay_for(u32 id, SwRec** end);
Thr* new_thread(Thr* parent) {
  Thr* t = nullptr;
  for (auto& x : g_thr)
    if (x.st == S_FREE) {
      t = &x;
      break;
    }
  if (!t) return nullptr;
  u32 myclk = t->vc.c[t->slot];
  int slot = (int)(t - g_thr);
  memset((void*)t, 0, sizeof *t);
  t->slot = slot;
  t->id = g_nextid++;
  t->st = S_RUN;
  if (parent) t->vc = parent->vc;
  t->vc.c[slot] = myclk + 1 > t->vc.c[slot] + 1 ? myclk + 1 : t->vc.c[slot] + 1;
  t->stk_lo = STACKS + (u64)slot * STACK_SZ;
  t->stk_hi = t->stk_lo + STACK_SZ;
  t->prio = (u32)g_rs.below(1u << 20);
  if (g_pol == P_SERIAL) t->prio = (u32)g_rs.below(1u << 20);
  t->next_at = gap();
  if (g_replay) {
    // cursor set by caller
    t->cursor = replay_for(t->id, &t->cursor_end);
  }
  return t;
}
SwRec* g_rsw = nullptr;
u32 g_rswn = 0;
SwRec* replay_for(u32 id, SwRec** end) {
  // g_rsw is sorted by tid (stable)
  u32 lo = 0;
  while (lo < g_rswn && g_rsw[lo].tid < id) ++lo;
  u32 hi = lo;
  while (hi < g_rswn && g_rsw[hi].tid == id) ++hi;
  *end = g_rsw + hi;
  return g_rsw + lo;
}

int os_create(Thr* t) {
  REAL(pthread_create);
  pthread_attr_t at;
  pthread_attr_init(&at);
  // fresh stack: drop old contents and shadow
  raw(SYS_madvise, (long)t->stk_lo, (long)STACK_SZ, MADV_DONTNEED);
  raw(SYS_madvise, (long)cell(t->stk_lo), (long)((STACK_SZ >> 3) * sizeof(Cell)), MADV_DONTNEED);
  pthread_attr_setstack(&at, (void*)t->stk_lo, STACK_SZ);
  int r = real_pthread_create(&t->os, &at, trampoline, t);
  pthread_attr_destroy(&at);
  return r;
}
}  // namespace

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  Thr* me = self;
  if (!g_sim || !me) return real_pthread_create(out, attr, fn, arg);
  RtGuard g(me);
  if (me->window && fire_at(F_THREAD_CREATE)) return EAGAIN;
  Thr* t = new_thread(me);
  if (!t) return EAGAIN;
  t->fn = fn;
  t->arg = arg;
  me->vc.c[me->slot]++;
  if (attr) {
    int d = 0;
    pthread_attr_getdetachstate(attr, &d);
    t->detached = d == PTHREAD_CREATE_DETACHED;
  }
  t->window = me->window;
  g_nlive++;
  g_nrun++;
  g_sh->created++;
  if ((u32)g_nlive > g_sh->peak) g_sh->peak = (u32)g_nlive;
  if (os_create(t)) die("cannot create an OS thread");
  *out = t->os;
  update_track();
  mix(g_hash, 0xC0 ^ t->id);
  sync_step(me, PC);
  return 0;
}
static Thr* find_os(pthread_t th) {
  for (auto& t : g_thr)
    if (t.st != S_FREE && t.os == th) return &t;
  return nullptr;
}
int pthread_join(pthread_t th, void** ret) {
  REAL(pthread_join);
  Thr* me = self;
  if (!g_sim || !me) return real_pthread_join(th, ret);
  RtGuard g(me);
  Thr* t = find_os(th);
  if (!t) return ESRCH;
  if (t == me) return EDEADLK;
  if (t->st != S_DONE) block(me, W_JOIN, (uptr)t);
  vc_join(me->vc, t->vc);
  if (ret) *ret = t->ret;
  real_pthread_join(th, nullptr);
  t->st = S_FREE;
  if (g_nlive > 1) sync_step(me, PC);
  return 0;
}
int pthread_detach(pthread_t th) {
  REAL(pthread_detach);
  Thr* me = self;
  if (!g_sim || !me) return real_pthread_detach(th);
  Thr* t = find_os(th);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_impl(m, PC, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_impl(m, PC, true, 0); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_impl(m, PC); }
static u64 abs_ns(const timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { return lock_impl(m, PC, false, abs_ns(ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) { return lock_impl(m, PC, false, abs_ns(ts)); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (g_sim && self) {
    Mtx* x = mtx((uptr)m);
    x->owner = 0;
    x->count = 0;
  }
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset((void*)c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_sim || !self) die("cond_wait outside a run");
  return cond_wait_impl(c, m, 0, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  return cond_wait_impl(c, m, abs_ns(ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  return cond_wait_impl(c, m, abs_ns(ts), PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  wake_all(W_COND, (uptr)c, 1);
  if (g_nlive > 1) sync_step(t, PC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  wake_all(W_COND, (uptr)c);
  if (g_nlive > 1) sync_step(t, PC);
  return 0;
}
// reader/writer locks: a mutex record whose count is the number of readers and
// whose owner is the writer
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  Mtx* x = mtx((uptr)m);
  if (g_nlive > 1) sync_step(t, PC);
  if (x->owner == (int)t->id + 1) return EDEADLK;
  while (x->owner) block(t, W_RW, (uptr)m);
  x->count++;
  vc_join(t->vc, x->vc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  Mtx* x = mtx((uptr)m);
  if (x->owner) return EBUSY;
  x->count++;
  vc_join(t->vc, x->vc);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  Mtx* x = mtx((uptr)m);
  if (g_nlive > 1) sync_step(t, PC);
  if (x->owner == (int)t->id + 1) reportf("deadlock", "T%u write-locks a rwlock it holds", t->id);
  while (x->owner || x->count) block(t, W_RW, (uptr)m);
  x->owner = (int)t->id + 1;
  vc_join(t->vc, x->vc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  Mtx* x = mtx((uptr)m);
  if (x->owner || x->count) return EBUSY;
  x->owner = (int)t->id + 1;
  vc_join(t->vc, x->vc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  Thr* t = self;
  if (!g_sim || !t) return 0;
  RtGuard g(t);
  Mtx* x = mtx((uptr)m);
  if (x->owner == (int)t->id + 1)
    x->owner = 0;
  else if (x->count)
    x->count--;
  vc_join(x->vc, t->vc);
  t->vc.c[t->slot]++;
  wake_all(W_RW, (uptr)m);
  if (g_nlive > 1) sync_step(t, PC);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

// call_once: *ctl 0 new, 1 running, 2 done
int pthread_once(pthread_once_t* ctl, void (*fn)()) {
  Thr* t = self;
  volatile int* c = (volatile int*)ctl;
  if (!g_sim || !t) {
    if (*c != 2) {
      fn();
      *c = 2;
    }
    return 0;
  }
  t->in_rt++;
  if (g_nlive > 1) sync_step(t, PC);
  while (*c == 1) block(t, W_ONCE, (uptr)ctl);
  if (*c == 2) {
    hb_acquire(t, (uptr)ctl);
    t->in_rt--;
    return 0;
  }
  *c = 1;
  t->in_rt--;
  try {
    fn();
  } catch (...) {
    *c = 0;
    wake_all(W_ONCE, (uptr)ctl);
    throw;
  }
  t->in_rt++;
  *c = 2;
  hb_release(t, (uptr)ctl);
  wake_all(W_ONCE, (uptr)ctl);
  t->in_rt--;
  return 0;
}

// function-local statics
int __cxa_guard_acquire(long long* gd) {
  u8* b = (u8*)gd;
  Thr* t = self;
  if (!g_sim || !t) return b[0] == 0;
  RtGuard g(t);
  if (g_nlive > 1) sync_step(t, PC);
  while (!b[0] && b[1]) {
    if (b[2] == (u8)(t->id + 1) && *(u32*)(b + 4) == t->id) reportf("deadlock", "recursive initialisation of a function-local static, pc 0x%x", (u32)PC);
    block(t, W_GUARD, (uptr)gd);
  }
  if (b[0]) {
    hb_acquire(t, (uptr)gd);
    return 0;
  }
  b[1] = 1;
  b[2] = (u8)(t->id + 1);
  *(u32*)(b + 4) = t->id;
  return 1;
}
void __cxa_guard_release(long long* gd) {
  u8* b = (u8*)gd;
  b[1] = 0;
  b[0] = 1;
  Thr* t = self;
  if (!g_sim || !t) return;
  RtGuard g(t);
  hb_release(t, (uptr)gd);
  wake_all(W_GUARD, (uptr)gd);
  if (g_nlive > 1) sync_step(t, PC);
}
void __cxa_guard_abort(long long* gd) {
  u8* b = (u8*)gd;
  b[1] = 0;
  Thr* t = self;
  if (!g_sim || !t) return;
  RtGuard g(t);
  wake_all(W_GUARD, (uptr)gd);
}

// clocks and sleeping run on simulated time
static void to_ts(u64 ns, timespec* ts) {
  ts->tv_sec = (time_t)(ns / 1000000000ull);
  ts->tv_nsec = (long)(ns % 1000000000ull);
}
int clock_gettime(clockid_t id, timespec* ts) {
  if (!g_sim || !self) return (int)raw(SYS_clock_gettime, id, (long)ts);
  to_ts(now_ns(), ts);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  u64 n = g_sim && self ? now_ns() : 0;
  if (!n) {
    timespec ts;
    raw(SYS_clock_gettime, 0, (long)&ts);
    n = abs_ns(&ts);
  }
  tv->tv_sec = (time_t)(n / 1000000000ull);
  tv->tv_usec = (long)(n % 1000000000ull / 1000);
  return 0;
}
time_t time(time_t* o) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
static void sleep_ns(u64 ns) {
  Thr* t = self;
  RtGuard g(t);
  block(t, W_SLEEP, 0, now_ns() + (ns ? ns : 1));
}
int nanosleep(const timespec* ts, timespec*) {
  if (!g_sim || !self) return (int)raw(SYS_nanosleep, (long)ts, 0);
  sleep_ns(abs_ns(ts));
  return 0;
}
int clock_nanosleep(clockid_t id, int fl, const timespec* ts, timespec* r) {
  if (!g_sim || !self) return -(int)raw(SYS_clock_nanosleep, id, fl, (long)ts, (long)r);
  u64 n = abs_ns(ts);
  if (fl & TIMER_ABSTIME) n = n > now_ns() ? n - now_ns() : 0;
  sleep_ns(n);
  return 0;
}
int usleep(useconds_t us) {
  timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
int sched_yield() noexcept {
  Thr* t = self;
  if (!g_sim || !t) return (int)raw(SYS_sched_yield);
  RtGuard g(t);
  if (g_nlive > 1 && g_nrun > 1) {
    if (g_pol == P_PCT || g_pol == P_SERIAL) t->prio = (u32)g_rs.below(64);
    reschedule(t, true);
  } else
    step(t, K_SYNC, false);
  return 0;
}
int get_nprocs() noexcept { return 4; }
int get_nprocs_conf() noexcept { return 4; }

long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  Thr* t = self;
  if (n == SYS_futex && g_sim && t) {
    RtGuard g(t);
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (g_nlive > 1) sync_step(t, PC);
      if (*(volatile int*)a != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      u64 dl = 0;
      if (d) dl = op == FUTEX_WAIT ? now_ns() + abs_ns((timespec*)d) : abs_ns((timespec*)d);
      block(t, W_FUTEX, (uptr)a, dl);
      if (t->timed_out) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int k = wake_all(W_FUTEX, (uptr)a, (int)c >= MAXT ? MAXT : (int)c);
      if (g_nlive > 1) sync_step(t, PC);
      return k;
    }
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
}  // extern "C"

// ======================================================== API
static bool g_alloc_may_end;
namespace sim {
std::uint64_t rnd() { return g_rw.next(); }
bool op_enabled(int idx) {
  if (!g_ref && g_sh->nops < (u32)idx + 1) g_sh->nops = (u32)idx + 1;
  for (u32 i = 0; i < g_ndisabled; ++i)
    if (g_disabled[i] == idx) return false;
  return true;
}
void arm(Fault f, int num, int den, int mx) {
  g_fl[f].armed = true;
  g_fl[f].num = (u32)num;
  g_fl[f].den = (u32)den;
  g_fl[f].max = (u32)mx;
}
void disarm(Fault f) { g_fl[f].armed = false; }
bool fire(Fault f) {
  Thr* t = self;
  RtGuard g(t);
  return fire_at(f);
}
unsigned fired(Fault f) { return g_fl[f].fired; }
FaultWindow::FaultWindow() { self->window++; }
FaultWindow::~FaultWindow() { self->window--; }
void violation(const char* cls, const std::string& msg) {
  if (self) self->in_rt++;
  report(cls, msg.data(), msg.size());
}
void event_num(std::uint64_t v) {
  if (g_ref) return;
  g_seq++;
  mix(g_hist, v);
  mix(g_hash, v ^ 0xABCDEF);
}
void event(const std::string& s) {
  if (g_ref) return;
  u64 h = 1469598103934665603ull;
  for (char c : s) {
    h ^= (u8)c;
    h *= 1099511628211ull;
  }
  event_num(h);
}
void note(const std::string& s) {
  if (g_ref || !g_sh) return;
  u32 n = g_sh->nnote;
  if (n + s.size() + 2 < sizeof g_sh->notes) {
    memcpy(g_sh->notes + n, s.data(), s.size());
    n += (u32)s.size();
    g_sh->notes[n++] = '\n';
    g_sh->notes[n] = 0;
    g_sh->nnote = n;
  }
}
void probe(const char* name) {
  if (g_ref) return;
  for (u32 i = 0; i < g_sh->nprobe; ++i)
    if (!strcmp(g_sh->probes[i].name, name)) {
      g_sh->probes[i].n++;
      return;
    }
  if (g_sh->nprobe < NPROBE) {
    strncpy(g_sh->probes[g_sh->nprobe].name, name, 55);
    g_sh->probes[g_sh->nprobe++].n = 1;
  }
}
void skip(const char* why) {
  if (self) self->in_rt++;
  strncpy(g_sh->msg, why, 200);
  finish(3);
}
void exhaustion_may_terminate(bool on) { g_alloc_may_end = on; }
std::uint64_t seq() { return g_seq; }
void watch_races(bool on) { g_race = on; }
void watch_uaf(bool on) {
  g_uaf = on;
  update_track();
}
void yield() { sched_yield(); }
int live_threads() { return g_nlive; }
int current_tid() { return self ? (int)self->id : -1; }
unsigned threads_created() { return g_sh->created; }
unsigned peak_threads() { return g_sh->peak; }
std::uint64_t seed() { return g_seed; }
bool replaying() { return g_replay; }
void set_max_steps(std::uint64_t n) { g_maxsteps = n; }
NoPreempt::NoPreempt() { self->nopreempt++; }
NoPreempt::~NoPreempt() { self->nopreempt--; }

std::string in_fork(const std::function<std::string()>& fn) {
  int fd[2];
  if (pipe(fd)) die("pipe");
  Thr* me = self;
  pid_t p = (pid_t)raw(SYS_fork);
  if (p == 0) {
    ::close(fd[0]);
    g_ref = true;
    g_ref_fd = fd[1];
    for (auto& t : g_thr)
      if (&t != me) t.st = S_FREE;
    g_nlive = g_nrun = 1;
    g_pol = P_NONE;
    g_replay = false;
    g_race = false;
    g_maxsteps = ~0ull;
    for (auto& f : g_fl) f.armed = false;
    me->window = 0;
    update_track();
    std::string s;
    try {
      s = fn();
    } catch (const std::exception& e) {
      s = std::string("!EXC:") + e.what();
    } catch (...) {
      s = "!EXC:unknown";
    }
    size_t o = 0;
    while (o < s.size()) {
      long k = raw(SYS_write, fd[1], (long)(s.data() + o), (long)(s.size() - o));
      if (k <= 0) break;
      o += (size_t)k;
    }
    raw(SYS_exit_group, 0);
  }
  ::close(fd[1]);
  std::string out;
  static char buf[1 << 16];
  for (;;) {
    long k = raw(SYS_read, fd[0], (long)buf, sizeof buf);
    if (k <= 0) break;
    // pipe chunking is real-time dependent: grow by fixed steps only
    size_t need = out.size() + (size_t)k;
    if (out.capacity() < need) {
      size_t c = 4096;
      while (c < need) c *= 4;
      out.reserve(c);
    }
    out.append(buf, (size_t)k);
  }
  ::close(fd[0]);
  int st = 0;
  raw(SYS_wait4, p, (long)&st, 0, 0);
  if (WIFSIGNALED(st)) return "!CRASH:signal " + std::to_string(WTERMSIG(st));
  if (WEXITSTATUS(st)) return "!CRASH:exit " + std::to_string(WEXITSTATUS(st));
  return out;
}
Scenario::Scenario(const char* n, void (*f)()) : name(n), fn(f), next(g_scn) { g_scn = this; }
}  // namespace sim

// ======================================================== main
namespace {
Scenario* g_cur = nullptr;

void setup_policy(int forced) {
  Rng r{g_seed * 0x9E3779B97F4A7C15ull + 77};
  r.next();
  static const Pol pols[] = {P_SYNC, P_RAND, P_PCT, P_CONF, P_CONF, P_MIX, P_MIX, P_SERIAL};
  g_pol = pols[r.below(8)];
  u64 a = r.next(), b = r.next(), c = r.next();
  g_psync = g_pconf = g_patom = 0;
  g_gaplog = 0;
  static const u32 ps[] = {64, 256, 512, 1024};
  switch (g_pol) {
    case P_SYNC:
      g_psync = ps[a % 4];
      g_patom = ps[b % 4];
      break;
    case P_RAND:
      g_gaplog = 2 + (u32)(a % 14);
      g_psync = 64;
      break;
    case P_PCT:
      g_gaplog = 4 + (u32)(a % 14);
      g_psync = (b & 1) ? 32 : 0;
      break;
    case P_CONF:
      g_pconf = ps[a % 4] / 4;
      g_patom = ps[b % 4] / 4;
      g_psync = 128;
      break;
    case P_MIX:
      g_pconf = ps[a % 4] / 8;
      g_patom = ps[b % 4] / 8;
      g_psync = ps[c % 4] / 4;
      g_gaplog = 5 + (u32)((a >> 8) % 10);
      break;
    case P_SERIAL:
    case P_NONE:
      break;
  }
  g_pstall = (c >> 20) % 4 == 0 ? 16 + (u32)((c >> 24) % 64) : 0;
  g_layout = (u32)((c >> 32) % 3);
  if (forced >= 0) g_pol = (Pol)forced;
  g_sh->policy = g_pol;
}


void terminate_handler() {
  const char* what = "no active exception";
  char buf[600];
  if (std::type_info* ti = abi::__cxa_current_exception_type()) {
    try {
      throw;
    } catch (const std::exception& e) {
      snprintf(buf, sizeof buf, "%s: %s", ti->name(), e.what());
      what = buf;
    } catch (...) {
      what = ti->name();
    }
  }
  if (self) self->in_rt++;
  if (getenv("SIM_BT")) {
    void* pc[60];
    backtrace_symbols_fd(pc, backtrace(pc, 60), 2);
  }
  if (g_alloc_may_end && sim::fired(F_ALLOC)) sim::skip("ended by memory exhaustion in a noexcept function");
  reportf("terminate", "std::terminate called (%s) in T%u", what, self ? self->id : 9999);
}

void on_signal(int s) {
  // only async-signal-unsafe in theory: nothing else runs
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : s == SIGALRM ? "SIGALRM" : "signal";
  if (s == SIGALRM) {
    if (g_sh && !g_ref) {
      strcpy(g_sh->msg, "real-time limit");
      g_sh->status = 5;
    }
    raw(SYS_exit_group, 0);
  }
  reportf("crash", "%s in T%u", n, self ? self->id : 9999);
}

void* run_body(void*) {
  g_cur->fn();
  self->in_rt++;
  finish(1);
}

void child_main() {
  g_rs.s = g_seed ^ 0x1111111111111111ull;
  g_rw.s = g_seed ^ 0x2222222222222222ull;
  g_rf.s = g_seed ^ 0x3333333333333333ull;
  g_rl.s = g_seed ^ 0x4444444444444444ull;
  g_rs.next();
  static char altstack[65536];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(terminate_handler);
  pthread_key_create(&g_exit_key, exit_key_dtor);
  Thr* t = new_thread(nullptr);
  t->fn = run_body;
  t->vc.c[t->slot] = 1;
  g_nlive = g_nrun = 1;
  g_sh->created = 0;
  g_sh->peak = 1;
  if (os_create(t)) die("thread 0");
  g_sim = true;
  update_track();
  give(t);
  for (;;) raw(SYS_pause);
}

char g_out_buf[1 << 16];
int jesc(char* o, int cap, const char* s) {
  int n = 0;
  for (; *s && n < cap - 8; ++s) {
    u8 c = (u8)*s;
    if (c == '"' || c == '\\')
      o[n++] = '\\', o[n++] = (char)c;
    else if (c == '\n')
      o[n++] = '\\', o[n++] = 'n';
    else if (c < 32)
      n += sprintf(o + n, "\\u%04x", c);
    else
      o[n++] = (char)c;
  }
  o[n] = 0;
  return n;
}
void outs(const char* b, int n) {
  while (n > 0) {
    long k = raw(SYS_write, 1, (long)b, n);
    if (k <= 0) return;
    b += k;
    n -= (int)k;
  }
}
void print_result(bool full) {
  Shared* s = g_sh;
  char* o = g_out_buf;
  int cap = sizeof g_out_buf;
  int n = snprintf(o, cap,
                   "{\"scn\":\"%s\",\"seed\":%llu,\"status\":%d,\"steps\":%llu,\"switches\":%llu,\"sync\":%llu,\"conf\":%llu,"
                   "\"hash\":\"%016llx\",\"ilv\":\"%016llx\",\"hist\":\"%016llx\",\"sim_ns\":%llu,\"events\":%llu,\"threads\":%u,\"peak\":%u,"
                   "\"policy\":%u,\"ovf\":%u,\"nops\":%u,\"faults\":[",
                   g_cur->name, (unsigned long long)g_seed, s->status, (unsigned long long)s->steps, (unsigned long long)s->switches,
                   (unsigned long long)s->sched_points, (unsigned long long)s->conflicts, (unsigned long long)s->hash,
                   (unsigned long long)s->ilv, (unsigned long long)s->hist, (unsigned long long)s->sim_ns,
                   (unsigned long long)s->events, s->created, s->peak, s->policy, s->overflow, s->nops);
  for (int i = 0; i < F_COUNT; ++i) n += snprintf(o + n, cap - n, "%s%u", i ? "," : "", s->faults[i]);
  n += snprintf(o + n, cap - n, "],\"probes\":{");
  for (u32 i = 0; i < s->nprobe; ++i) n += snprintf(o + n, cap - n, "%s\"%s\":%u", i ? "," : "", s->probes[i].name, s->probes[i].n);
  n += snprintf(o + n, cap - n, "}");
  if (s->status != 1) {
    n += snprintf(o + n, cap - n, ",\"cls\":\"%s\",\"pcs\":[%u,%u],\"msg\":\"", s->cls, s->race_pc[0], s->race_pc[1]);
    n += jesc(o + n, 20000, s->msg);
    n += snprintf(o + n, cap - n, "\"");
  }
  outs(o, n);
  if (full) {
    n = snprintf(o, cap, ",\"fl\":[");
    for (u32 i = 0; i < s->nfl; ++i) {
      n += snprintf(o + n, cap - n, "%s[%u,%u]", i ? "," : "", s->fl[i].kind, s->fl[i].idx);
      if (n > 60000) outs(o, n), n = 0;
    }
    n += snprintf(o + n, cap - n, "],\"sw\":[");
    for (u32 i = 0; i < s->nsw; ++i) {
      n += snprintf(o + n, cap - n, "%s[%u,%llu,%u]", i ? "," : "", s->sw[i].tid, (unsigned long long)s->sw[i].step, s->sw[i].to);
      if (n > 60000) outs(o, n), n = 0;
    }
    n += snprintf(o + n, cap - n, "],\"notes\":\"");
    outs(o, n);
    static char esc[sizeof(Shared::notes) * 2];
    int k = jesc(esc, sizeof esc, s->notes);
    outs(esc, k);
    outs("\"", 1);
  }
  outs("}\n", 2);
}

// replay file in the simple text form written by the driver
void load_replay(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) die("cannot open replay");
  g_rsw = (SwRec*)rawmap(0, MAX_SW * sizeof(SwRec));
  g_replay_fl = (decltype(g_replay_fl))rawmap(0, MAX_FL * 8);
  g_disabled = (int*)rawmap(0, 65536 * 4);
  char k[8];
  while (fscanf(f, "%7s", k) == 1) {
    if (k[0] == '#') {
      for (int c = fgetc(f); c != EOF && c != '\n';) c = fgetc(f);
      continue;
    }
    if (k[0] == 's') {
      unsigned a, c;
      unsigned long long b;
      if (fscanf(f, "%u %llu %u", &a, &b, &c) != 3) break;
      g_rsw[g_rswn++] = SwRec{a, c, b};
    } else if (k[0] == 'f') {
      unsigned a, b;
      if (fscanf(f, "%u %u", &a, &b) != 2) break;
      g_replay_fl[g_replay_fl_n].kind = a;
      g_replay_fl[g_replay_fl_n++].idx = b;
    } else if (k[0] == 'd') {
      int a;
      if (fscanf(f, "%d", &a) != 1) break;
      g_disabled[g_ndisabled++] = a;
    }
  }
  fclose(f);
  // stable sort by tid
  for (u32 i = 1; i < g_rswn; ++i) {
    SwRec x = g_rsw[i];
    u32 j = i;
    while (j > 0 && g_rsw[j - 1].tid > x.tid) {
      g_rsw[j] = g_rsw[j - 1];
      --j;
    }
    g_rsw[j] = x;
  }
  g_replay = true;
}
}  // namespace

int main(int argc, char** argv, char**) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality((unsigned)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  const char* scn = nullptr;
  u64 from = 1, count = 1, stride = 1;
  double secs = 0;
  bool full = false;
  int forced = -1, cpu = -1;
  unsigned tmo = 60;
  const char* replay = nullptr;
  for (int i = 1; i < argc; ++i) {
    auto is = [&](const char* x) { return !strcmp(argv[i], x) && i + 1 < argc; };
    if (is("--scn")) scn = argv[++i];
    else if (is("--seed")) from = strtoull(argv[++i], nullptr, 10);
    else if (is("--count")) count = strtoull(argv[++i], nullptr, 10);
    else if (is("--stride")) stride = strtoull(argv[++i], nullptr, 10);
    else if (is("--secs")) secs = atof(argv[++i]);
    else if (is("--cpu")) cpu = atoi(argv[++i]);
    else if (is("--timeout")) tmo = (unsigned)atoi(argv[++i]);
    else if (is("--policy")) forced = atoi(argv[++i]);
    else if (is("--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--full")) full = true;
    else if (!strcmp(argv[i], "--list")) {
      for (Scenario* s = g_scn; s; s = s->next) printf("%s\n", s->name);
      return 0;
    }
  }
  for (Scenario* s = g_scn; s; s = s->next)
    if (scn && !strcmp(s->name, scn)) g_cur = s;
  if (!g_cur) die("unknown scenario");
  if (cpu >= 0) {
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(cpu, &set);
    sched_setaffinity(0, sizeof set, &set);
  }
  if (replay) {
    load_replay(replay);
    full = true;
  }
  g_sh = (Shared*)rawmap(0, sizeof(Shared), true);
  timespec t0;
  raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t0);
  for (u64 i = 0; i < count; ++i) {
    g_seed = from + i * stride;
    // clear only what matters
    memset(g_sh, 0, offsetof(Shared, notes) + 16);
    g_sh->nsw = g_sh->nfl = 0;
    pid_t p = (pid_t)raw(SYS_fork);
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setup_policy(forced);
      struct itimerval itv {};
      itv.it_value.tv_sec = tmo;
      setitimer(ITIMER_REAL, &itv, nullptr);
      child_main();
    }
    int st = 0;
    raw(SYS_wait4, p, (long)&st, 0, 0);
    if (g_sh->status == 0) {
      g_sh->status = WIFSIGNALED(st) ? 2 : 4;
      if (WIFSIGNALED(st)) {
        strcpy(g_sh->cls, "crash");
        snprintf(g_sh->msg, 100, "killed by signal %d", WTERMSIG(st));
      } else
        snprintf(g_sh->msg, 100, "exit status %d", WEXITSTATUS(st));
    }
    print_result(full);
    if (secs > 0) {
      timespec t1;
      raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1);
      if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
  }
  return 0;
}
