/* Deterministic simulation kernel for the database layer.
 *
 * Clients of the database are fibers inside one OS thread.  Every memory
 * access of the code under test is a call into this kernel (the sources are
 * compiled with -fsanitize=thread, and tsan.cpp supplies the callbacks), so
 * the seeded scheduler may switch fibers between any two accesses of shared
 * memory.  Time, futexes, sleeps, shared memory segments and stdio files are
 * simulated; nothing the code under test can observe comes from outside the
 * seed.
 */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;

/* ---------- random numbers (xoshiro256**, seeded by splitmix64) ---------- */
struct Rng {
  u64 s[4];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64 &x) {
    u64 z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) { for (auto &v : s) v = mix(seed); }
  static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 next() {
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

/* ---------- decisions ----------
 * Every choice of the simulator is a decision with a stable address
 * (fiber, class, ordinal) and a value; 0 is the default (no fault, no
 * preemption).  Random mode draws them and keeps the non-default ones;
 * replay mode looks them up. */
enum DecClass {
  DC_PREEMPT = 1,   /* at the n-th shared access of this fiber: switch to value-1 */
  DC_NEXT = 2,      /* at the n-th block of this fiber: next fiber = value-1 */
  DC_STALL = 3,     /* at the n-th shared access: stall for value ns */
  DC_FUTEX = 4,     /* at the n-th futex wait: fault */
  DC_SLEEP = 5,     /* at the n-th sleep: fault */
  DC_DIE = 6,       /* at the n-th shared access: die */
  DC_SYS = 7,       /* at the n-th simulated system call: fault */
  DC_IO = 8,        /* at the n-th stdio backend operation: fault */
  DC_MALLOC = 9,    /* at the n-th malloc: fail */
  DC_USER = 10,
};
struct Dec { int fiber; int cls; u64 ord; i64 val; };
static inline u64 deckey(int f, int c, u64 o) { return ((u64)f << 58) | ((u64)c << 52) | o; }

/* ---------- scheduling policy, drawn per run (swarm) ---------- */
struct Policy {
  int mode = 0;               /* 0 random preemption, 1 PCT priorities */
  double p_volatile = 0.1;    /* preemption probability at a volatile or atomic access */
  double p_plain = 0.0;       /* ... at a plain shared access */
  double p_stall = 0.0;       /* stall instead of switch */
  i64 stall_max = 0;
  double p_futex_fault = 0.0; /* per wait */
  double p_sleep_fault = 0.0;
  double p_die = 0.0;         /* per futex wait / sleep */
  double p_sys = 0.0;         /* per simulated system call */
  double p_io = 0.0;
  double p_malloc = 0.0;
  int pct_depth = 0;
  u64 pct_len = 1000;
  std::vector<i64> step_cost; /* ns per step, per fiber */
};

struct Stats {
  u64 steps = 0, switches = 0, preempts = 0, runs = 0;
  double simtime_s = 0;
  std::map<std::string, u64> faults, counters;
  std::unordered_set<u64> ilv;     /* distinct interleavings */
  std::unordered_set<u64> states;  /* distinct abstract states */
  std::unordered_set<u64> runs_hash;
  u64 clipped = 0;
};

struct Violation { std::string what; };

struct Fiber {
  int id = 0;
  void *sp = nullptr;
  char *stack = nullptr;
  std::function<void()> body;
  enum St { READY, BLOCKED, DONE, DEAD } st = DONE;
  i64 wake_at = -1;            /* timer */
  int wake_reason = 0;         /* set by waker */
  u64 futex_key = 0;           /* waiting on this futex (0 none) */
  bool sigpending = false;
  u64 ord[16];
  u64 access = 0;              /* shared accesses so far */
  i64 prio = 0;
  void *user = nullptr;
  int depth = 0;
};

struct Sim {
  /* configuration of this run */
  bool replay = false;
  Rng rng;
  Policy pol;
  std::unordered_map<u64, i64> rdec;        /* replay decisions */
  std::vector<std::vector<std::pair<u64, i64>>> rpre, rdie, rstall; /* per fiber, sorted */
  std::vector<size_t> ipre, idie, istall;
  std::vector<Dec> log;
  /* state */
  std::vector<Fiber> f;
  int cur = -1;
  bool on = false;
  int nosched = 0;
  i64 now = 0;
  i64 cpu = 0, lost = 0;        /* time taken by instructions; by injected stalls */
  u64 steps = 0, max_steps = 5000000;
  i64 next_timer = -1;
  u64 ilv_hash = 0, trace_hash = 0;
  u64 switches = 0, preempts = 0;
  i64 pre_v = 0, pre_p = 0;     /* countdown to next preemption */
  std::vector<u64> pct_points; size_t pct_i = 0;
  bool clipped = false;         /* step budget exhausted */
  bool deadlock = false;
  bool failed = false;
  std::string failure;
  std::string trace_text; bool want_trace = false;
  std::map<std::string, u64> faults;
  u64 after_death = 400000;     /* steps left to the others after a death */
  bool die_ok = false;          /* deaths allowed at the current point of the current fiber */

  void reset(u64 seed, int nf);
  void load(const std::vector<Dec> &d);
  void run();                   /* run all fibers to completion */
  void fail(const std::string &w);       /* record a violation and stop the run */
  i64 decide(int cls, const std::function<i64()> &gen);
  void access(const void *a, int kind);
  void step();
  void yield_now(int kind);
  void block(i64 until, u64 fkey);       /* returns when woken or timer; see wake_reason */
  void sleep_ns(i64 ns);
  void wake(int id, int reason);
  void ev(const char *fmt, ...);         /* trace event: part of the trace hash */
  void mark(u64 x) { ilv_hash = (ilv_hash ^ x) * 0x100000001b3ull; ilv_hash ^= ilv_hash >> 29; }
  void die();                            /* current fiber dies here */
  Fiber &me() { return f[cur]; }
  void recompute_timer();
  void fire_timers();
  int pick_next(bool blocked);
  void switch_to(int id);
  void draw_pre();
};
extern Sim S;
extern Stats G;

enum { WR_TIMER = 1, WR_WAKE = 2, WR_SIGNAL = 3, WR_SPURIOUS = 4 };

/* simulated shared memory arena */
extern char *arena_lo, *arena_hi;
void arena_init(size_t bytes);

/* shared memory segments */
struct ShmSeg { int id; int key; size_t size; int fd; int mode; int nattch; bool rmid; bool live; int owner; };
struct ShmMap { void *addr; size_t len; int seg; int proc; bool ro; };
struct ShmWorld {
  std::vector<ShmSeg> segs; std::vector<ShmMap> maps; int nextid = 100;
  size_t total_limit = (size_t)1 << 40;
  void reset();
};
extern ShmWorld W;
int cur_proc();

/* memory allocation accounting for fault injection */
extern i64 malloc_fail_at; extern i64 malloc_count;

int real_main(int argc, char **argv);
