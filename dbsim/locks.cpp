/* L01 (exclusion) and L02 (progress): clients taking and releasing the
 * database lock under every kind of wait fault. */
#include "harness.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#define class class_
#include "../config.h"
#include "dballoc.h"
#include "dbmem.h"
#include "dblock.h"
#undef class
}
#if (LOCK_PROTO == TFQUEUE)
const char *variant_name = "tfqueue";
#elif (LOCK_PROTO == RPSPIN)
const char *variant_name = "rpspin";
#else
const char *variant_name = "wpspin";
#endif
static const bool QUEUE = LOCK_PROTO == TFQUEUE;

/* ---------- a segment, mapped once per client ---------- */
static const size_t SEG = 192 * 1024;
static const int MAXC = 8;
static int seg_fd = -1;
static char *seg_map[MAXC];
static std::vector<char> seg_snap;
static size_t data_off;

static void seg_setup() {
  if (seg_fd >= 0) return;
  char *p = (char *)wg_attach_local_database(SEG);
  if (!p) { fprintf(stderr, "cannot make the segment\n"); exit(2); }
  seg_fd = memfd_create("seg", 0);
  if (ftruncate(seg_fd, SEG)) exit(2);
  seg_snap.assign(p, p + SEG);
  data_off = SEG - 64;             /* two words nobody else uses */
  memset(&seg_snap[data_off], 0, 64);
  for (int i = 0; i < MAXC; i++)
    seg_map[i] = (char *)mmap(arena_lo + (size_t)i * (1 << 20), SEG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, seg_fd, 0);
}
static void seg_reset() {
  seg_setup();
  memcpy(seg_map[0], seg_snap.data(), SEG);
  W.maps.clear();
  for (int i = 0; i < MAXC; i++) W.maps.push_back({seg_map[i], SEG, 0, i, false});
}

/* ---------- program ---------- */
/* op: kind(0 read,1 write) timeout_ms(-1: default through the public API) hold_ns think_ns */
static Program gen(u64 seed, bool l02) {
  Rng r(seed * 2654435761u + 17);
  Program p;
  int nc = r.chance(0.3) ? 2 : r.chance(0.5) ? 3 : r.range(2, 8);
  int nops = r.chance(0.5) ? 2 : r.range(1, 7);
  double pw = r.pick(std::vector<double>{0.2, 0.5, 0.8, 1.0});
  std::vector<i64> tm = {-1, -1, 2000, 1999, 1500, 1000, 700, 500, 250, 37, 10, 3, 1, 0};
  i64 hold_max = r.pick(std::vector<i64>{0, 1000, 100000, 5000000, 100000000, 400000000});
  i64 think_max = r.pick(std::vector<i64>{0, 1000, 1000000, 50000000});
  bool longonly = r.chance(0.3), shortonly = !longonly && r.chance(0.4);
  p.cfg["clients"] = nc;
  p.cfg["final"] = seed % 8 == 0 ? 150 : 3;
  p.ops.resize(nc);
  auto lim = [&](i64 m) -> i64 { return m ? (i64)r.below(r.chance(0.3) ? m : 1 + m / 10) : 0; };
  for (int c = 0; c < nc; c++) {
    p.cfg["cost" + std::to_string(c)] = r.chance(0.1) ? 2000 : r.pick(std::vector<i64>{1, 5, 20, 100});
    for (int i = 0; i < nops; i++) {
      i64 t = longonly ? (r.chance(0.5) ? -1 : 2000) : shortonly ? tm[9 + r.below(5)] : r.pick(tm);
      p.ops[c].push_back({r.chance(pw) ? 1 : 0, t, lim(hold_max), lim(think_max)});
    }
  }
  (void)l02;
  return p;
}
static Program gen1(u64 s) { return gen(s, false); }
static Program gen2(u64 s) { return gen(s, true); }

/* ---------- run ---------- */
struct Req { bool active; i64 t0; i64 idle_max; };
static int readers, writers, releasing;
static i64 idle_since;              /* -1: held; else corrected time */
static Req req[MAXC + 1];
static bool L02mode;

/* virtual time minus the time the simulator itself took from the clients
 * (instruction cost, injected stalls): what is left is time spent sleeping */
static i64 ctime_now() { return S.now - S.cpu; }
/* stalls also make others back off: a spinner sleeps 0.5 ms longer every time it looks */
static i64 slack() { return S.lost + (i64)(3e6 * __builtin_sqrt(S.lost / 1e6)); }
static i64 idle_bound() { return (QUEUE ? 25000000 : 120000000) + slack(); }

static void note_idle_end() {
  if (idle_since >= 0) {
    i64 now = ctime_now();
    for (auto &q : req) if (q.active) {
      i64 from = std::max(idle_since, q.t0);
      if (now - from > q.idle_max) q.idle_max = now - from;
    }
  }
}
static void set_held() { note_idle_end(); idle_since = -1; }
static void maybe_idle() { if (!readers && !writers && !releasing) idle_since = ctime_now(); }

static void client(int c, const Program &p, char *db) {
  volatile i64 *w = (volatile i64 *)(db + data_off);
  int n = p.ops[c].size();
  for (int k = 0; k < n; k++) {
    const std::vector<i64> &op = p.ops[c][k];
    bool wr = op[0];
    i64 tmo = op[1], hold = op[2], think = op[3];
    if (think) S.sleep_ns(think);
    S.ev("%s request, timeout %lld ms", wr ? "write" : "read", (long long)tmo);
    i64 t0 = S.now;
    req[c] = {true, ctime_now(), 0};
    u64 interrupts0 = S.faults["futex_eintr"] + S.faults["futex_spurious"] + S.faults["sleep_eintr"];
    i64 steps0 = S.steps;
    i64 c0 = ctime_now();
    S.die_ok = true;
    gint l;
    if (tmo < 0) l = wr ? wg_start_write(db) : wg_start_read(db);
    else l = wr ? db_wlock(db, tmo) : db_rlock(db, tmo);
    S.die_ok = false;
    u64 interrupts = S.faults["futex_eintr"] + S.faults["futex_spurious"] + S.faults["sleep_eintr"] - interrupts0;
    i64 t = tmo < 0 ? DEFAULT_LOCK_TIMEOUT : tmo;
    i64 took = S.now - t0;
    S.ev("%s %s", wr ? "write" : "read", l ? "granted" : "refused");
    if (l) {
      G.counters[wr ? "write_granted" : "read_granted"]++;
      if (writers || (wr && readers)) {
        char b[200];
        snprintf(b, sizeof b, "exclusion: client %d got the %s lock while %d writer(s) and %d reader(s) hold it", c, wr ? "write" : "read", writers, readers);
        if (!L02mode) S.fail(b);
        else { S.on = false; S.clipped = true; S.fail(""); }   /* L01's business */
      }
    } else G.counters["refused"]++;
    /* progress */
    if (L02mode) {
      if (l) {} else {
        i64 tol = QUEUE ? 1000 : (i64)((1.1 * __builtin_sqrt((double)t) + 1.5) * 1e6);
        bool cut = !QUEUE && S.faults["sleep_eintr"];
        if (!cut && took < t * 1000000 - tol) {
          char b[200]; snprintf(b, sizeof b, "early-failure: client %d was refused after %.6f ms although its timeout is %lld ms", c, took / 1e6, (long long)t);
          S.fail(b);
        }
      }
      if (idle_since >= 0) {
        i64 d = ctime_now() - std::max(idle_since, req[c].t0);
        if (d > req[c].idle_max) req[c].idle_max = d;
      }
      if (req[c].idle_max > idle_bound()) {
        char b[200]; snprintf(b, sizeof b, "lost-wakeup: client %d kept waiting %.3f ms while nobody held the lock (it was then %s)", c, req[c].idle_max / 1e6, l ? "granted" : "refused");
        S.fail(b);
      }
      i64 bound = (i64)(1 + interrupts) * t * 1000000 + 60000000;
      if (!QUEUE) bound += t * 1000000;
      if (ctime_now() - c0 > bound + slack()) {
        char b[200]; snprintf(b, sizeof b, "unbounded-wait: client %d waited %.3f ms for a request with timeout %lld ms", c, took / 1e6, (long long)t);
        S.fail(b);
      }
    }
    (void)steps0;
    req[c].active = false;
    if (!l) continue;
    set_held();
    if (wr) writers++; else readers++;
    G.states.insert((u64)readers * 64 + writers);
    /* data protected by the lock */
    if (wr) { i64 v = w[0] + 1; w[0] = v; S.access((void *)w, 1); if (hold) S.sleep_ns(hold); w[1] = v; }
    else {
      i64 a = w[1]; S.access((void *)w, 1); if (hold) S.sleep_ns(hold); i64 b = w[0];
      if (a != b && !L02mode) S.fail("exclusion: a reader saw a half-finished update");
    }
    if (wr) writers--; else readers--;
    releasing++;
    S.ev("release");
    if (tmo < 0) { if (wr) wg_end_write(db, l); else wg_end_read(db, l); }
    else { if (wr) db_wulock(db, l); else db_rulock(db, l); }
    releasing--;
    maybe_idle();
  }
}

static std::string run(const Program &p, u64 seed, const std::vector<Dec> *rep, bool l02) {
  L02mode = l02;
  seg_reset();
  int nc = p.get("clients");
  S.reset(seed, nc);
  Rng r(seed * 0x9E3779B97F4A7C15ull + 99);
  S.pol = draw_policy(r, p);
  S.pol.p_futex_fault = r.pick(std::vector<double>{0, 0, 0.1, 0.5});
  S.pol.p_sleep_fault = r.pick(std::vector<double>{0, 0, 0, 0.05});
  S.pol.p_stall = r.pick(std::vector<double>{0, 0, 0.02, 0.2});
  S.pol.stall_max = r.pick(std::vector<i64>{10000, 1000000, 100000000, 3000000000ll});
  if (!l02) S.pol.p_die = r.pick(std::vector<double>{0, 0, 0.02, 0.2});
  if (rep) S.load(*rep);
  readers = writers = releasing = 0;
  for (auto &q : req) q = {false, 0, 0};
  idle_since = ctime_now();
  S.max_steps = 60000000;
  for (int c = 0; c < nc; c++) { S.f[c].body = [c, &p]() { client(c, p, seg_map[c]); }; }
  S.run();
  fold_stats();
  if (S.failed && !S.failure.empty()) return S.failure;
  if (S.failed) return "";
  bool dead = false, alldone = true;
  for (auto &x : S.f) { if (x.st == Fiber::DEAD) dead = true; else if (x.st != Fiber::DONE) alldone = false; }
  if (l02) {
    if (S.clipped) return "hang: the clients do not finish although every holder releases";
    if (S.deadlock || !alldone) return "deadlock: clients wait for ever although every holder releases";
  }
  if (!l02 || dead || !alldone) return "";
  /* afterwards the lock is free: requests succeed at once, again and again */
  u64 keep_hash = S.trace_hash;
  std::vector<Dec> keep_log = S.log;
  auto keep_faults = S.faults;
  u64 kp = S.preempts;
  static std::string bad; bad.clear();
  S.reset(seed, 1);
  S.replay = true;                      /* no faults here */
  S.rpre.assign(1, {}); S.rdie.assign(1, {}); S.rstall.assign(1, {});
  int n = p.get("final", 3);
  S.pol.step_cost.assign(1, 10);
  S.f[0].body = [n]() {
    char *db = seg_map[1];
    for (int i = 0; i < n && bad.empty(); i++) {
      i64 t0 = S.now;
      gint a = wg_start_write(db);
      if (!a || S.now - t0 > 400000) { bad = "leaked-lock: after every client has released or given up, a write request " + std::string(a ? "has to wait" : "is refused"); break; }
      wg_end_write(db, a);
      a = wg_start_read(db);
      gint b = a ? wg_start_read(db) : 0;
      if (!a || !b || S.now - t0 > 400000) { bad = "leaked-lock: after every client has released or given up, a read request " + std::string(a && b ? "has to wait" : "is refused"); break; }
      if (i & 1) { wg_end_read(db, a); wg_end_read(db, b); } else { wg_end_read(db, b); wg_end_read(db, a); }
    }
  };
  S.max_steps = 5000000;
  S.run();
  if (bad.empty() && (S.clipped || S.deadlock)) bad = "leaked-lock: a request made when no client holds or wants the lock never returns";
  S.trace_hash ^= keep_hash; S.log = keep_log; S.faults = keep_faults; S.preempts = kp;
  return bad;
}
static std::string run1(const Program &p, u64 s, const std::vector<Dec> *r) { return run(p, s, r, false); }
static std::string run2(const Program &p, u64 s, const std::vector<Dec> *r) { return run(p, s, r, true); }

void reg_locks() {
  checks.push_back({"L01", gen1, run1});
  checks.push_back({"L02", gen2, run2});
}
