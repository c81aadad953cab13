/* gksim: deterministic simulation of whole gkc runs.
 *
 * The complete prover (all sources, unmodified) is linked into this program;
 * its main() is renamed.  A scenario is a list of gkc command lines with their
 * files.  Every command is a simulated process: a fork of this pristine server
 * used as an address space only.  Exactly one simulated process runs at any
 * time; the token is passed by a seeded scheduler in shared memory.  Basic
 * blocks executed (compiler instrumentation) are the processor time.  Clocks,
 * alarms, signals, fork/wait/kill, files, System V segments, futexes and the
 * allocator are simulated here, with faults decided by the seed or a list.
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <string>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;

extern "C" int gkc_real_main(int argc, char **argv);

/* ------------------------------------------------------------------ */
enum { MAXP = 160, MAXCMD = 24, MAXF = 24, MAXSEG = 8, MAXDEC = 60000, MAXFORCED = 60000, MAXMAP = 16, OUTCAP = 8 << 20, COVN = 1 << 16, TRCAP = 1 << 20 };

enum Cls {
  D_PREEMPT = 1, /* process, basic-block count -> run process value-1 */
  D_NEXT = 2,    /* process, ordinal of giving up the processor -> run value-1 */
  D_STALL = 3,   /* process, basic-block count -> not scheduled for value ns */
  D_DIE = 4,     /* process, basic-block count -> killed by signal value */
  D_FORK = 5,    /* process, ordinal of fork -> fails with errno value */
  D_WAIT = 6,    /* process, ordinal of wait/sleep -> 1: EINTR */
  D_MALLOC = 7,  /* process, ordinal of allocation -> 1: fails once, 2: fails from here on */
  D_OPEN = 8,    /* process, ordinal of open -> fails with errno value */
  D_READ = 9,    /* process, ordinal of read -> >0: at most value bytes; <0: fails with errno -value; */
  D_WRITE = 10,  /* process, ordinal of write -> >0: at most value-1 bytes then ENOSPC; <0: errno; dying: <= -1000: die after -(v)-1000 bytes */
  D_CLOSE = 11,  /* process, ordinal of close -> fails with errno value */
  D_SHM = 12,    /* process, ordinal of shm call -> errno; >=1000: die before (1000) or after (1001) the call */
  D_CLOCK = 13,  /* process, ordinal of clock() -> extra ns */
  D_TOD = 14,    /* process, ordinal of gettimeofday -> jump ns */
  D_SLEEP = 15,  /* process, ordinal -> oversleep ns */
  D_REAP = 16,   /* process, ordinal of reaping -> choose value-th dead child */
  D_STDOUT = 17, /* process, ordinal of stdout write -> errno */
  D_N = 18
};
static const char *clsname[] = {"", "preempt", "next", "stall", "kill", "fork_fail", "eintr", "alloc_fail", "open_fail", "read_fault", "write_fault", "close_fail", "shm_fault", "clock_skew", "time_jump", "oversleep", "reap_order", "stdout_fail"};

struct Dec { int p, cls; u64 ord; i64 val; };

struct Proc {
  int used, state, real, parent, cmd, vpid;
  int wstatus;          /* wait status when zombie */
  int reaped;
  volatile int tok;
  i64 wake;             /* timer (ps), -1 none */
  i64 alarm_at;         /* -1 none */
  int has_handler;      /* SIGALRM handler installed */
  int sigign, termign, chldign;  /* ignored signals */
  int pend_term, has_term_handler; u64 blocked;
  int pdeath;
  int wait_kind;        /* what it is blocked on */
  u64 fkey; int fwoken;
  i64 cpu;              /* ps */
  u64 bb;
  u64 ord[D_N];
  u64 started, ended;
  int started_flag;
  i64 start_at; int after;  /* root commands */
  u64 lcg;
  size_t live, peak;
  int mem_dead;
  i64 crash_pc, crash_addr;
  int sigs_pending;
};
enum { ST_READY = 1, ST_BLOCKED, ST_ZOMBIE, ST_WAITSTART };
enum { WK_SLEEP = 1, WK_CHILD, WK_FUTEX };

struct VFile { int used; char name[200]; int mode; /* 0 normal, 1 unreadable, 2 read-only */ };
struct VSeg { int used, key, id, nattch, rmid, fdi, mode; u64 size; int creator; i64 rm_pending; };
struct VMap { int used, proc; int seg; void *addr; u64 size; int ro; };

struct CB {
  /* config */
  u64 rng[4];
  int replay;               /* only forced decisions */
  i64 bb_ps;                /* picoseconds per basic block, a multiple of 840 */
  i64 now;                  /* ps */
  i64 tod_off;              /* ps */
  i64 ncpu;
  u64 max_bb, tot_bb;
  i64 quantum;              /* mean slice in basic blocks; 0: no preemption */
  double p_stall, p_die, p_fork, p_eintr, p_malloc, p_open, p_read, p_readshort, p_write, p_close, p_shm, p_clock, p_tod, p_sleep, p_stdout;
  i64 stall_max, clock_gran, tod_jump;
  int garbage; u64 garbage_seed; i64 heap_shift; int lowmem;
  i64 memlimit;
  int sigchld_ign;
  i64 read_chunk;           /* every read returns at most this many bytes; 0 no limit */
  int chunk_rand;
  int shmhash;
  i64 shm_limit;            /* total bytes of segments */
  int die_procs;            /* 0 workers only, 1 anyone */
  int calm, storm_end;      /* processes of the commands before calm and from storm_end on meet no random faults */
  int want_trace;
  i64 disk_cap;             /* free bytes on the disk, -1 unlimited */
  i64 mal_armed;            /* allocation faults start at this ordinal */
  /* processes */
  Proc p[MAXP];
  int np, running, ncmd;
  volatile int srv_tok;
  int deadlock, clipped, overflow;
  i64 residual;
  u64 slice_rem_dummy;
  /* files and segments */
  VFile f[MAXF];
  VSeg seg[MAXSEG]; int nextshm;
  VMap map[MAXP * 2];
  /* decisions */
  Dec log[MAXDEC]; int nlog;
  Dec forced[MAXFORCED]; int nforced;
  u64 faults[D_N];
  u64 hash, ilv;
  u64 switches;
  u64 mallocs;
  u64 cmd_shmhash[MAXCMD];
  int cmd_left[MAXCMD];     /* processes of the command alive when its root ended */
  i64 cmd_left_end[MAXCMD];
  /* output */
  struct { int p, cmd; u64 off, len; i64 t; } chunk[20000]; int nchunk;
  u64 outlen;
  unsigned char cov[COVN];
  u64 trlen;
  char tr[TRCAP];
  char out[OUTCAP];
};
static CB *C;
static int me = -1;
static int file_fd[MAXF], seg_fd[MAXSEG];
static i64 bb_left = (i64)1 << 60, bb_given = (i64)1 << 60;
static int in_kernel = 1;           /* no ticks inside the simulator itself */
static void (*alrm_handler)(int), (*term_handler)(int);

static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd() {
  u64 *s = C->rng, r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static u64 below(u64 n) { return n ? rnd() % n : 0; }
static double unif() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static bool chance(double p) { return p > 0 && !(me >= 0 && (C->p[me].cmd < C->calm || (C->storm_end && C->p[me].cmd >= C->storm_end))) && unif() < p; }
static i64 logdur(double lo, double hi) { double l = __builtin_log(lo), h = __builtin_log(hi); return (i64)__builtin_exp(l + unif() * (h - l)); }

static long sysc(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void mixh(u64 x) { C->hash = (C->hash ^ x) * 0x100000001b3ull; C->hash ^= C->hash >> 29; }
static void trace(const char *fmt, ...) {
  char b[300];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char *q = b; *q; q++) C->hash = (C->hash ^ (unsigned char)*q) * 0x100000001b3ull;
  mixh((u64)C->now * 31 + me);
  if (C->want_trace && C->trlen + 400 < TRCAP)
    C->trlen += snprintf(C->tr + C->trlen, 400, "%14.6f s  proc %d  %s\n", C->now / 1e12, me, b);
}

/* ---------- decisions ---------- */
static bool forced(int p, int cls, u64 ord, i64 *v) {
  int lo = 0, hi = C->nforced;
  while (lo < hi) {
    int m = (lo + hi) / 2; Dec &d = C->forced[m];
    bool less = d.p != p ? d.p < p : d.cls != cls ? d.cls < cls : d.ord < ord;
    if (less) lo = m + 1; else hi = m;
  }
  if (lo < C->nforced && C->forced[lo].p == p && C->forced[lo].cls == cls && C->forced[lo].ord == ord) { *v = C->forced[lo].val; return true; }
  return false;
}
/* next forced decision of this process and class at or after ord */
static bool forced_next(int p, int cls, u64 ord, u64 *at, i64 *v) {
  int lo = 0, hi = C->nforced;
  while (lo < hi) {
    int m = (lo + hi) / 2; Dec &d = C->forced[m];
    bool less = d.p != p ? d.p < p : d.cls != cls ? d.cls < cls : d.ord < ord;
    if (less) lo = m + 1; else hi = m;
  }
  if (lo < C->nforced && C->forced[lo].p == p && C->forced[lo].cls == cls) { *at = C->forced[lo].ord; *v = C->forced[lo].val; return true; }
  return false;
}
static void logdec(int p, int cls, u64 ord, i64 v) {
  if (C->nlog < MAXDEC) C->log[C->nlog++] = {p, cls, ord, v}; else C->overflow = 1;
}
template <class F> static i64 decide(int cls, F gen, bool count = true) {
  Proc &P = C->p[me];
  u64 o = P.ord[cls]++;
  i64 v = 0;
  if (forced(me, cls, o, &v)) {}
  else if (C->replay) return 0;
  else v = gen();
  if (v) { logdec(me, cls, o, v); if (count) C->faults[cls]++; }
  return v;
}


static const i64 NS = 1000, US = 1000000, SEC = 1000000000000ll, EPOCH = 1700000000ll;

/* ---------- processor time and scheduling ---------- */
static int runnable() { int n = 0; for (int i = 0; i < C->np; i++) if (C->p[i].used && C->p[i].state == ST_READY) n++; return n ? n : 1; }
static i64 share() { return std::min<i64>(std::min<i64>(runnable(), C->ncpu), 8); }
/* basic blocks since the last accounting become processor time and time */
static void account() {
  if (me < 0) return;
  i64 used = bb_given - bb_left;
  if (used <= 0) return;
  bb_given = bb_left;
  Proc &P = C->p[me];
  P.bb += used; C->tot_bb += used;
  P.cpu += used * C->bb_ps;
  C->now += used * (C->bb_ps / share());
}
static void fwait(volatile int *w) {
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) sysc(SYS_futex, (long)w, FUTEX_WAIT, 0, 0);
  *w = 0;
}
static void fgive(volatile int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); sysc(SYS_futex, (long)w, FUTEX_WAKE, 1); }

/* how far this process may run before something has to be decided */
static void arm() {
  Proc &P = C->p[me];
  i64 n = (i64)1 << 40;
  u64 at; i64 v;
  for (int c : {D_PREEMPT, D_STALL, D_DIE})
    if (forced_next(me, c, P.bb + 1, &at, &v)) n = std::min<i64>(n, (i64)(at - P.bb));
  if (!C->replay && C->quantum > 0) n = std::min<i64>(n, 1 + (i64)(-__builtin_log(1 - unif()) * C->quantum));
  i64 nt = -1;
  for (int i = 0; i < C->np; i++) {
    Proc &Q = C->p[i];
    if (!Q.used || Q.state == ST_ZOMBIE) continue;
    if (Q.alarm_at >= 0 && (i == me || Q.state == ST_BLOCKED) && (nt < 0 || Q.alarm_at < nt)) nt = Q.alarm_at;
    if (Q.state == ST_BLOCKED && Q.wake >= 0 && (nt < 0 || Q.wake < nt)) nt = Q.wake;
    if (Q.state == ST_WAITSTART && Q.after < 0 && (nt < 0 || Q.start_at < nt)) nt = Q.start_at;
  }
  if (nt >= 0) {
    i64 per = C->bb_ps / share();
    i64 d = nt <= C->now ? 1 : (nt - C->now + per - 1) / per;
    n = std::min(n, std::max<i64>(d, 1));
  }
  n = std::min<i64>(n, (i64)(C->max_bb - std::min(C->max_bb, C->tot_bb)) + 1);
  bb_left = bb_given = std::max<i64>(n, 1);
}
static void kill_real(int i) { if (C->p[i].real > 0) sysc(SYS_kill, C->p[i].real, SIGKILL); }

static u64 segments_hash() {
  u64 h = 1469598103934665603ull;
  static char buf[1 << 16];
  for (int s = 0; s < MAXSEG; s++) {
    VSeg &g = C->seg[s];
    if (!g.used || g.rmid) continue;
    h = (h ^ (u64)g.key) * 0x100000001b3ull; h = (h ^ g.size) * 0x100000001b3ull;
    off_t o = 0;
    while (o < (off_t)g.size) {
      off_t a = lseek(seg_fd[g.fdi], o, SEEK_DATA);
      if (a < 0) break;
      off_t e = lseek(seg_fd[g.fdi], a, SEEK_HOLE);
      for (off_t x = a; x < e;) {
        ssize_t r = pread(seg_fd[g.fdi], buf, std::min<off_t>(sizeof buf, e - x), x);
        if (r <= 0) break;
        for (ssize_t k = 0; k + 8 <= r; k += 8) { u64 w; memcpy(&w, buf + k, 8); if (w) { h = (h ^ (w + (u64)(x + k) * 31)) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; } }
        x += r;
      }
      o = e;
    }
  }
  return h;
}
static void detach_all(int i) {
  for (auto &m : C->map) if (m.used && m.proc == i) {
    m.used = 0; VSeg &g = C->seg[m.seg]; g.nattch--;
    if (g.rmid && g.nattch <= 0) { g.used = 0; if (ftruncate(seg_fd[g.fdi], 0)) {} }
  }
}
static void send_sig(int k, int sig);
/* process i is dead with this wait status (me, or another that does not run) */
static void mark_dead(int i, int wstatus) {
  Proc &P = C->p[i];
  if (P.state == ST_ZOMBIE) return;
  P.state = ST_ZOMBIE; P.wstatus = wstatus; P.ended = C->now; P.alarm_at = -1; P.wake = -1;
  detach_all(i);
  trace("process %d ends, status 0x%x", i, wstatus);
  if (P.parent >= 0) {
    Proc &Q = C->p[P.parent];
    if (Q.state == ST_BLOCKED && Q.wait_kind == WK_CHILD) { Q.state = ST_READY; Q.wake = -1; }
    if (Q.chldign) P.reaped = 1;
  } else {
    /* a command ended: who of it is still there? */
    if (C->shmhash) C->cmd_shmhash[P.cmd] = segments_hash();
  }
  for (int k = 0; k < C->np; k++)
    if (k != i && C->p[k].used && C->p[k].parent == i && C->p[k].state != ST_ZOMBIE && C->p[k].pdeath) send_sig(k, C->p[k].pdeath);
  if (P.parent < 0) {
    int n = 0;
    for (int k = 0; k < C->np; k++) if (k != i && C->p[k].used && C->p[k].cmd == P.cmd && C->p[k].state != ST_ZOMBIE) n++;
    C->cmd_left[P.cmd] = n;
    for (int k = 0; k < C->np; k++)
      if (C->p[k].state == ST_WAITSTART && C->p[k].after == P.cmd) { C->p[k].after = -1; C->p[k].start_at += C->now; }
  } else if (C->p[P.cmd].state == ST_ZOMBIE) C->cmd_left_end[P.cmd] = C->now;
}
static void send_sig(int k, int sig) {
  Proc &Q = C->p[k];
  if (Q.state == ST_ZOMBIE || sig == 0) return;
  if (sig == SIGTERM || sig == SIGINT || sig == SIGHUP) {
    if (Q.termign && sig == SIGTERM) return;
    if ((Q.has_term_handler && sig == SIGTERM) || (Q.blocked & (1ull << sig))) {
      Q.pend_term = sig;
      if (Q.state == ST_BLOCKED && Q.wait_kind != WK_FUTEX && !(Q.blocked & (1ull << sig))) Q.state = ST_READY;
      return;
    }
  } else if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH || sig == SIGUSR1 * 0) return;
  if (k == me) return;                    /* the caller handles itself */
  kill_real(k);
  mark_dead(k, sig);
}
static void wake_timers() {
  for (int i = 0; i < C->np; i++) {
    Proc &Q = C->p[i];
    if (!Q.used) continue;
    if (Q.state == ST_BLOCKED && ((Q.wake >= 0 && Q.wake <= C->now) || (Q.alarm_at >= 0 && Q.alarm_at <= C->now))) Q.state = ST_READY;
    if (Q.state == ST_WAITSTART && Q.after < 0 && Q.start_at <= C->now) { Q.state = ST_READY; Q.started = C->now; }
  }
}
static int choose_next() {
  for (;;) {
    wake_timers();
    int r[MAXP], n = 0;
    for (int k = 1; k <= C->np; k++) { int i = (std::max(me, 0) + k) % C->np; if (C->p[i].used && C->p[i].state == ST_READY) r[n++] = i; }
    if (n) {
      int pick = r[0], m = std::max(me, 0);
      u64 o = C->p[m].ord[D_NEXT]++;
      i64 v = 0;
      if (forced(m, D_NEXT, o, &v)) { for (int k = 0; k < n; k++) if (r[k] == v - 1) pick = r[k]; }
      else if (!C->replay && n > 1) pick = r[below(n)];
      if (pick != r[0]) logdec(m, D_NEXT, o, pick + 1);
      return pick;
    }
    i64 nt = -1;
    for (int i = 0; i < C->np; i++) {
      Proc &Q = C->p[i];
      if (!Q.used) continue;
      if (Q.state == ST_BLOCKED) {
        if (Q.wake >= 0 && (nt < 0 || Q.wake < nt)) nt = Q.wake;
        if (Q.alarm_at >= 0 && (nt < 0 || Q.alarm_at < nt)) nt = Q.alarm_at;
      }
      if (Q.state == ST_WAITSTART && Q.after < 0 && (nt < 0 || Q.start_at < nt)) nt = Q.start_at;
    }
    if (nt < 0) return -1;
    if (nt > C->now) C->now = nt;
  }
}
static void give_to(int i) {
  C->running = i;
  if (i < 0) fgive(&C->srv_tok);
  else fgive(&C->p[i].tok);
}
static void stop_all() { give_to(-1); for (;;) fwait(&C->p[me].tok); }
static void pass_to(int i) {
  if (i == me) return;
  C->switches++;
  C->ilv = (C->ilv ^ (C->p[me].bb * 131 + i + 1)) * 0x100000001b3ull; C->ilv ^= C->ilv >> 31;
  give_to(i);
  fwait(&C->p[me].tok);
}
static void deliver();
static void die_self(int wstatus) __attribute__((noreturn));
static void die_self(int wstatus) {
  in_kernel = 1;
  mark_dead(me, wstatus);
  int n = choose_next();
  give_to(n);
  sysc(SYS_exit_group, 0);
  __builtin_unreachable();
}
/* wait until made ready; signal handlers run; returns when ready */
static void block(int kind, i64 until) {
  Proc &P = C->p[me];
  P.state = ST_BLOCKED; P.wait_kind = kind; P.wake = until;
  int n = choose_next();
  if (n < 0) { C->deadlock = 1; trace("nothing can run"); stop_all(); }
  pass_to(n);
  P.wait_kind = 0; P.wake = -1;
  deliver();
}
static void deliver() {
  Proc &P = C->p[me];
  if (P.alarm_at >= 0 && P.alarm_at <= C->now && !(P.blocked & (1ull << SIGALRM))) {
    P.alarm_at = -1;
    if (!P.sigign) {
      trace("SIGALRM");
      if (!alrm_handler) die_self(SIGALRM);
      int k = in_kernel;
      arm(); in_kernel = 0;
      alrm_handler(SIGALRM);
      in_kernel = 1; account(); in_kernel = k;
    }
  }
  if (P.pend_term && !(P.blocked & (1ull << P.pend_term))) {
    int s = P.pend_term; P.pend_term = 0;
    trace("signal %d", s);
    if (s == SIGTERM && P.termign) return;
    if (s != SIGTERM || !term_handler) die_self(s);
    int k = in_kernel;
    arm(); in_kernel = 0;
    term_handler(s);
    in_kernel = 1; account(); in_kernel = k;
  }
}
static i64 stall_len() { return logdur(1e3, (double)C->stall_max) * NS; }
static void tick() {
  in_kernel = 1;
  account();
  Proc &P = C->p[me];
  if (C->tot_bb > C->max_bb) { C->clipped = 1; trace("step budget used up"); stop_all(); }
  wake_timers();
  deliver();
  i64 v;
  bool moved = false;
  if (forced(me, D_DIE, P.bb, &v)) { logdec(me, D_DIE, P.bb, v); C->faults[D_DIE]++; trace("killed by signal %d", (int)v); die_self((int)v); }
  if (forced(me, D_STALL, P.bb, &v)) { logdec(me, D_STALL, P.bb, v); C->faults[D_STALL]++; trace("stalls %lld ns", (long long)v); block(WK_SLEEP, C->now + v * NS); moved = true; }
  else if (forced(me, D_PREEMPT, P.bb, &v)) {
    if (v >= 1 && v <= C->np && C->p[v - 1].used && C->p[v - 1].state == ST_READY) { logdec(me, D_PREEMPT, P.bb, v); pass_to(v - 1); moved = true; }
  } else if (!C->replay && C->quantum > 0) {
    if ((C->die_procs || P.parent >= 0) && chance(C->p_die)) { logdec(me, D_DIE, P.bb, SIGKILL); C->faults[D_DIE]++; trace("killed by signal 9"); die_self(SIGKILL); }
    if (chance(C->p_stall)) {
      i64 d = stall_len() / NS;
      logdec(me, D_STALL, P.bb, d); C->faults[D_STALL]++; trace("stalls %lld ns", (long long)d);
      block(WK_SLEEP, C->now + d * NS); moved = true;
    } else {
      int r[MAXP], n = 0;
      for (int i = 0; i < C->np; i++) if (i != me && C->p[i].used && C->p[i].state == ST_READY) r[n++] = i;
      if (n) { int t = r[below(n)]; logdec(me, D_PREEMPT, P.bb, t + 1); C->faults[D_PREEMPT]++; pass_to(t); moved = true; }
    }
  }
  if (moved) deliver();
  arm();
  in_kernel = 0;
}
extern "C" void __sanitizer_cov_trace_pc() {
  u64 pc = (u64)__builtin_return_address(0);
  C->cov[(pc * 0x9E3779B97F4A7C15ull) >> 48] = 1;
  if (__builtin_expect(--bb_left <= 0, 0)) {
    if (in_kernel || me < 0) { bb_left = bb_given = (i64)1 << 40; return; }
    tick();
  }
}
/* entry and exit of a simulated system call */
struct Sys {
  int k;
  Sys() { k = in_kernel; in_kernel = 1; if (!k) account(); }
  ~Sys() { if (!k && me >= 0) { wake_timers(); deliver(); arm(); } in_kernel = k; }
};
struct Lite {                      /* no scheduling effect */
  int k;
  Lite() { k = in_kernel; in_kernel = 1; if (!k) account(); }
  ~Lite() { in_kernel = k; }
};

/* ---------- processes ---------- */
extern "C" {
int __real_fork();
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
}
static void end_process(int code) __attribute__((noreturn));
static void end_process(int code) {
  fflush(nullptr);                 /* what exit() does with open streams */
  in_kernel = 1; account();
  die_self((code & 0xff) << 8);
}
extern "C" void __wrap_exit(int code) { if (me < 0) { sysc(SYS_exit_group, code); } end_process(code); }
extern "C" void __wrap__exit(int code) { if (me < 0) { sysc(SYS_exit_group, code); } in_kernel = 1; account(); die_self((code & 0xff) << 8); }
extern "C" void __wrap_abort() { in_kernel = 1; account(); trace("abort"); die_self(SIGABRT); }

extern "C" int __wrap_fork() {
  Sys s;
  i64 e = decide(D_FORK, [] { return chance(C->p_fork) ? (i64)EAGAIN : 0; });
  if (e || C->np >= MAXP) { trace("fork fails"); errno = EAGAIN; return -1; }
  int idx = C->np;
  Proc &Q = C->p[idx];
  memset((void *)&Q, 0, sizeof Q);
  Q.used = 1; Q.state = ST_READY; Q.parent = me; Q.cmd = C->p[me].cmd; Q.vpid = 1000 + idx; Q.wake = -1; Q.alarm_at = -1;
  Q.has_term_handler = C->p[me].has_term_handler; Q.has_handler = C->p[me].has_handler; Q.chldign = C->p[me].chldign; Q.termign = C->p[me].termign; Q.sigign = C->p[me].sigign; Q.blocked = C->p[me].blocked;
  Q.started = C->now; Q.live = C->p[me].live; Q.after = -1; Q.mem_dead = C->p[me].mem_dead;
  /* attached segments are inherited */
  for (auto &m : C->map) if (m.used && m.proc == me) for (auto &n : C->map) if (!n.used) { n = m; n.proc = idx; C->seg[m.seg].nattch++; break; }
  C->np++;
  trace("fork -> process %d", idx);
  int r = (int)sysc(SYS_gettid) * 0 + __real_fork();
  if (r < 0) { fprintf(stderr, "gksim: fork failed\n"); C->overflow = 2; stop_all(); }
  if (r == 0) {
    me = idx;
    fwait(&C->p[idx].tok);
    in_kernel = 1; bb_left = bb_given = 0;
    return 0;
  }
  Q.real = r;
  return Q.vpid;
}
extern "C" int __wrap_waitpid(int pid, int *st, int opt) {
  Sys s;
  for (;;) {
    int z[MAXP], n = 0, kids = 0;
    for (int i = 0; i < C->np; i++) {
      Proc &Q = C->p[i];
      if (!Q.used || Q.parent != me || Q.reaped) continue;
      if (pid > 0 && Q.vpid != pid) continue;
      kids++;
      if (Q.state == ST_ZOMBIE) z[n++] = i;
    }
    if (n) {
      i64 v = n > 1 ? decide(D_REAP, [&] { return (i64)below(n); }, false) : 0;
      Proc &Q = C->p[z[v < n && v >= 0 ? v : 0]];
      Q.reaped = 1;
      if (st) *st = Q.wstatus;
      trace("waitpid -> process %d status 0x%x", (int)(&Q - C->p), Q.wstatus);
      return Q.vpid;
    }
    if (!kids) { errno = ECHILD; trace("waitpid: no child"); return -1; }
    if (opt & WNOHANG) return 0;
    i64 e = decide(D_WAIT, [] { return chance(C->p_eintr) ? (i64)1 : 0; });
    if (e) { errno = EINTR; trace("waitpid: interrupted"); return -1; }
    block(WK_CHILD, -1);
  }
}
extern "C" int __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
extern "C" int __wrap_kill(int pid, int sig) {
  Sys s;
  for (int i = 0; i < C->np; i++) {
    Proc &Q = C->p[i];
    if (!Q.used || Q.vpid != pid || Q.reaped) continue;
    trace("kill process %d signal %d", i, sig);
    if (i == me) {
      if (!sig || (sig == SIGTERM && Q.termign) || (sig == SIGALRM && Q.sigign) || sig == SIGCHLD) return 0;
      if (sig == SIGALRM && (alrm_handler || (Q.blocked & (1ull << sig)))) { if (Q.alarm_at < 0 || Q.alarm_at > C->now) Q.alarm_at = C->now; return 0; }
      if (sig == SIGTERM && (term_handler || (Q.blocked & (1ull << sig)))) { Q.pend_term = sig; return 0; }
      die_self(sig);
    }
    send_sig(i, sig);
    return 0;
  }
  errno = ESRCH;
  return -1;
}
extern "C" int __wrap_raise(int sig) { return __wrap_kill(C->p[me].vpid, sig); }
extern "C" int __wrap_getpid() { return me < 0 ? 1 : C->p[me].vpid; }
extern "C" int __wrap_getppid() {
  Lite s;
  Proc &P = C->p[me];
  if (P.parent < 0) return 999;
  return C->p[P.parent].state == ST_ZOMBIE ? 1 : C->p[P.parent].vpid;
}
extern "C" int __wrap_prctl(int op, unsigned long a, unsigned long b, unsigned long c, unsigned long d) {
  Sys s;
  if (op == PR_SET_PDEATHSIG) { C->p[me].pdeath = (int)a; return 0; }
  errno = EINVAL;
  return -1;
}
typedef void (*sh)(int);
static sh set_handler(int sig, sh h) {
  Proc &P = C->p[me];
  if (sig == SIGALRM) {
    sh o = P.sigign ? SIG_IGN : alrm_handler ? alrm_handler : SIG_DFL;
    P.sigign = h == SIG_IGN;
    alrm_handler = (h == SIG_IGN || h == SIG_DFL) ? nullptr : h;
    P.has_handler = alrm_handler != nullptr;
    return o;
  }
  if (sig == SIGTERM) {
    sh o = P.termign ? SIG_IGN : term_handler ? term_handler : SIG_DFL;
    P.termign = h == SIG_IGN;
    term_handler = (h == SIG_IGN || h == SIG_DFL) ? nullptr : h;
    P.has_term_handler = term_handler != nullptr;
    return o;
  }
  if (sig == SIGCHLD) {
    sh o = P.chldign ? SIG_IGN : SIG_DFL;
    P.chldign = h == SIG_IGN;
    return o;
  }
  return SIG_DFL;
}
extern "C" sh __wrap_signal(int sig, sh h) { Sys s; return set_handler(sig, h); }
extern "C" int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  Sys s;
  sh old = sig == SIGALRM ? (C->p[me].sigign ? SIG_IGN : alrm_handler ? alrm_handler : SIG_DFL) : sig == SIGTERM ? (C->p[me].termign ? SIG_IGN : term_handler ? term_handler : SIG_DFL) : SIG_DFL;
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = old; }
  if (a) set_handler(sig, a->sa_handler);
  return 0;
}
extern "C" int __wrap_sigprocmask(int how, const sigset_t *set, sigset_t *old) {
  Sys s;
  Proc &P = C->p[me];
  if (old) { sigemptyset(old); for (int i = 1; i < 32; i++) if (P.blocked & (1ull << i)) sigaddset(old, i); }
  if (set) {
    u64 m = 0;
    for (int i = 1; i < 32; i++) if (sigismember(set, i) == 1) m |= 1ull << i;
    if (how == SIG_BLOCK) P.blocked |= m; else if (how == SIG_UNBLOCK) P.blocked &= ~m; else P.blocked = m;
  }
  return 0;
}
extern "C" unsigned __wrap_alarm(unsigned sec) {
  Sys s;
  Proc &P = C->p[me];
  unsigned left = 0;
  if (P.alarm_at >= 0) left = (unsigned)((P.alarm_at - C->now + SEC - 1) / SEC);
  P.alarm_at = sec ? C->now + (i64)sec * SEC : -1;
  trace("alarm %u", sec);
  return left;
}

/* ---------- time ---------- */
extern "C" clock_t __wrap_clock() {
  if (me < 0) return 0;
  Lite s;
  i64 d = decide(D_CLOCK, [] { return chance(C->p_clock) ? logdur(1e3, 3e9) : 0; });
  if (d) { C->p[me].cpu += d * NS; C->now += d * NS; }
  i64 us = C->p[me].cpu / US;
  if (C->clock_gran > 1) us -= us % C->clock_gran;
  return us;
}
static i64 tod() { return C->now + C->tod_off + EPOCH * 0; }
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *) {
  Lite s;
  i64 d = decide(D_TOD, [] { return chance(C->p_tod) ? (i64)(below(2 * C->tod_jump + 1)) - C->tod_jump : 0; });
  C->tod_off += d * NS;
  i64 t = tod();
  i64 sec = t / SEC, r = t % SEC;
  if (r < 0) { r += SEC; sec--; }
  tv->tv_sec = EPOCH + sec; tv->tv_usec = r / US;
  return 0;
}
extern "C" time_t __wrap_time(time_t *p) { time_t t = EPOCH + (me < 0 ? 0 : tod() / SEC); if (p) *p = t; return t; }
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  Lite s;
  i64 t = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? C->p[me].cpu : id == CLOCK_REALTIME ? tod() + EPOCH * 0 : C->now;
  ts->tv_sec = t / SEC + (id == CLOCK_REALTIME ? EPOCH : 0); ts->tv_nsec = t % SEC / NS;
  return 0;
}
static int do_sleep(i64 ps) {
  Sys s;
  i64 e = decide(D_WAIT, [] { return chance(C->p_eintr) ? (i64)1 : 0; });
  if (e) { errno = EINTR; return -1; }
  i64 o = decide(D_SLEEP, [] { return chance(C->p_sleep) ? logdur(1e3, 2e8) : 0; });
  i64 until = C->now + ps + o * NS;
  block(WK_SLEEP, until);
  if (C->now < until) { errno = EINTR; return -1; }
  return 0;
}
extern "C" int __wrap_usleep(unsigned us) { return do_sleep((i64)us * US); }
extern "C" unsigned __wrap_sleep(unsigned sec) { do_sleep((i64)sec * SEC); return 0; }
extern "C" int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) {
  if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
  return do_sleep((i64)t->tv_sec * SEC + t->tv_nsec * NS);
}
extern "C" int __wrap_sched_yield() { return do_sleep(100 * NS); }

/* ---------- memory ---------- */
static u64 hash3(u64 a, u64 b, u64 c) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ b * 0xC2B2AE3D27D4EB4Full ^ c * 0x165667B19E3779F9ull;
  x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
  return x;
}
static void scribble(void *p, size_t n, u64 salt) {
  if (!C->garbage) return;
  if (n > 65536) n = 65536;
  u64 x = hash3(C->garbage_seed, salt, n);
  unsigned char *q = (unsigned char *)p;
  if (C->garbage == 2) { memset(q, (int)(x & 0xff), n); return; }
  for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 y = x ^ (x >> 29); memcpy(q + i, &y, 8); }
}
static bool alloc_fails(size_t n) {
  if (me < 0) return false;
  Proc &P = C->p[me];
  C->mallocs++;
  if (P.mem_dead) { P.ord[D_MALLOC]++; return true; }
  if (C->memlimit && P.live + n > (size_t)C->memlimit) {
    P.ord[D_MALLOC]++;
    C->faults[D_MALLOC]++; Lite s; trace("allocation of %zu bytes fails: over the memory limit", n); return true;
  }
  if (!C->nforced && C->p_malloc <= 0) { P.ord[D_MALLOC]++; return false; }
  i64 v = decide(D_MALLOC, [&]() -> i64 {
    if (C->p_malloc <= 0 || (i64)P.ord[D_MALLOC] - 1 < C->mal_armed) return 0;
    return chance(C->p_malloc) ? (chance(0.5) ? 1 : 2) : 0; });
  if (!v) return false;
  if (v == 2) P.mem_dead = 1;
  Lite s;
  trace("allocation of %zu bytes fails", n);
  return true;
}
/* lowmem: big blocks lie at addresses below those of the shared segments, as on Linux; malloc alone puts them above here */
static struct { char *p; size_t n; } low[64];
static u64 low_next = 0x300000000000ull;
static void *low_alloc(size_t n) {
  if (me < 0 || !C->lowmem || n < (1 << 20)) return nullptr;
  for (auto &l : low) if (!l.p) {
    size_t len = (n + 4095) & ~4095ull;
    void *q = mmap((void *)low_next, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (q == MAP_FAILED) return nullptr;
    low_next += ((len >> 32) + 1) << 32;
    l.p = (char *)q; l.n = n;
    return q;
  }
  return nullptr;
}
static int low_slot(void *p) { if ((u64)p < 0x300000000000ull || (u64)p >= 0x400000000000ull) return -1; for (int i = 0; i < 64; i++) if (low[i].p == p) return i; return -1; }
extern "C" void *__wrap_malloc(size_t n) {
  if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  if (void *q = low_alloc(n)) { C->p[me].live += n; return q; }
  void *p = __real_malloc(n);
  if (p && me >= 0) { scribble(p, n, C->p[me].ord[D_MALLOC]); C->p[me].live += malloc_usable_size(p); }
  return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  if (alloc_fails(a * b)) { errno = ENOMEM; return nullptr; }
  if (void *q = low_alloc(a * b)) { C->p[me].live += a * b; return q; }
  void *p = __real_calloc(a, b);
  if (p && me >= 0) C->p[me].live += malloc_usable_size(p);
  return p;
}
extern "C" void __wrap_free(void *p) {
  if (!p) return;
  int ls = low_slot(p);
  if (ls >= 0) { munmap(p, (low[ls].n + 4095) & ~4095ull); if (me >= 0) C->p[me].live -= std::min(low[ls].n, C->p[me].live); low[ls].p = nullptr; return; }
  if (me >= 0) { size_t n = malloc_usable_size(p); C->p[me].live -= std::min(n, C->p[me].live); scribble(p, n, 77); }
  __real_free(p);
}
extern "C" void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  int ls = low_slot(p);
  if (ls >= 0) {
    void *q = low_alloc(n);
    if (!q) q = __real_malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, std::min(low[ls].n, n));
    if (me >= 0) C->p[me].live += n;
    __wrap_free(p);
    return q;
  }
  size_t o = malloc_usable_size(p);
  if (me >= 0 && C->garbage && n && o < (1 << 20)) {       /* always moves */
    void *q = __real_malloc(n);
    if (!q) return nullptr;
    scribble(q, n, C->p[me].ord[D_MALLOC]);
    memcpy(q, p, std::min(o, n));
    C->p[me].live += malloc_usable_size(q);
    __wrap_free(p);
    return q;
  }
  void *q = __real_realloc(p, n);
  if (q && me >= 0) C->p[me].live += malloc_usable_size(q) - o;
  return q;
}

/* ---------- files ---------- */
struct FC { int f; i64 pos; int flags; bool app; };
static int vlookup(const char *n) {
  while (n[0] == '.' && n[1] == '/') n += 2;
  for (int i = 0; i < MAXF; i++) if (C->f[i].used && !strcmp(C->f[i].name, n)) return i;
  return -1;
}
static ssize_t fc_read(void *c, char *buf, size_t n) {
  Sys s;
  FC *h = (FC *)c;
  u64 o = C->p[me].ord[D_READ];
  i64 v = decide(D_READ, [&]() -> i64 { if (chance(C->p_read)) return -EIO; if (chance(C->p_readshort)) return 1 + below(n); return 0; });
  if (v < 0) { trace("read error"); errno = (int)-v; return -1; }
  size_t m = n;
  if (v > 0) m = std::min<size_t>(m, v);
  if (C->read_chunk > 0) m = std::min<size_t>(m, C->chunk_rand ? 1 + hash3(C->garbage_seed, me, o) % C->read_chunk : C->read_chunk);
  ssize_t r = pread(file_fd[h->f], buf, m, h->pos);
  if (r > 0) h->pos += r;
  trace("read %s -> %zd", C->f[h->f].name, r);
  return r;
}
static ssize_t fc_write(void *c, const char *buf, size_t n) {
  Sys s;
  FC *h = (FC *)c;
  i64 v = decide(D_WRITE, [&]() -> i64 { if (!chance(C->p_write)) return 0; int k = below(3); return k == 0 ? -EIO : k == 1 ? -ENOSPC : 1 + (i64)below(n + 1); });
  size_t m = n;
  if (v <= -1000) m = std::min<size_t>(n, -v - 1000);
  else if (v < 0) { trace("write error"); errno = (int)-v; return 0; }
  else if (v > 0) m = std::min<size_t>(n, v - 1);
  struct stat st; fstat(file_fd[h->f], &st);
  if (h->app) h->pos = st.st_size;
  if (C->disk_cap >= 0) {
    i64 grow = std::max<i64>(0, h->pos + (i64)m - st.st_size);
    if (grow > C->disk_cap) { m = std::max<i64>(0, (i64)m - (grow - C->disk_cap)); C->faults[D_WRITE]++; }
    C->disk_cap -= std::max<i64>(0, h->pos + (i64)m - st.st_size);
  }
  ssize_t r = m ? pwrite(file_fd[h->f], buf, m, h->pos) : 0;
  if (r > 0) h->pos += r;
  trace("write %s %zu -> %zd", C->f[h->f].name, n, r);
  if (v <= -1000) { trace("killed in a write"); die_self(SIGKILL); }
  if ((size_t)r < n) errno = ENOSPC;
  return r;
}
static int fc_seek(void *c, off64_t *off, int wh) {
  FC *h = (FC *)c;
  struct stat st; fstat(file_fd[h->f], &st);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? h->pos : st.st_size;
  if (b + *off < 0) { errno = EINVAL; return -1; }
  h->pos = *off = b + *off;
  return 0;
}
static int fc_close(void *c) {
  Sys s;
  FC *h = (FC *)c;
  trace("close %s", C->f[h->f].name);
  i64 e = (h->flags & 1) ? decide(D_CLOSE, [] { return chance(C->p_close) ? (i64)EIO : 0; }) : 0;
  delete h;
  if (e) { errno = (int)e; return -1; }
  return 0;
}
extern "C" FILE *__wrap_fopen(const char *name, const char *mode) {
  if (me < 0) return __real_fopen(name, mode);
  Sys s;
  i64 e = decide(D_OPEN, [] { return chance(C->p_open) ? (i64)(chance(0.5) ? EACCES : EMFILE) : 0; });
  if (e) { trace("open %s fails", name); errno = (int)e; return nullptr; }
  while (name[0] == '.' && name[1] == '/') name += 2;
  int i = vlookup(name);
  bool w = mode[0] != 'r' || strchr(mode, '+');
  if (mode[0] == 'r' && i < 0) { trace("open %s: not there", name); errno = ENOENT; return nullptr; }
  if (i >= 0 && ((C->f[i].mode == 1) || (C->f[i].mode == 2 && w))) { errno = EACCES; return nullptr; }
  if (i < 0) {
    if (strstr(name, "nodir/")) { errno = ENOENT; return nullptr; }
    for (i = 0; i < MAXF && C->f[i].used; i++) {}
    if (i == MAXF) { errno = ENOSPC; return nullptr; }
    memset(&C->f[i], 0, sizeof C->f[i]);
    C->f[i].used = 1; snprintf(C->f[i].name, sizeof C->f[i].name, "%s", name);
    if (ftruncate(file_fd[i], 0)) {}
  }
  if (mode[0] == 'w') if (ftruncate(file_fd[i], 0)) {}
  FC *h = new FC{i, 0, mode[0] == 'r' && !w ? 0 : 1, mode[0] == 'a'};
  cookie_io_functions_t io = {fc_read, fc_write, fc_seek, fc_close};
  trace("open %s %s", name, mode);
  return fopencookie(h, mode, io);
}
extern "C" FILE *__wrap_freopen(const char *name, const char *mode, FILE *f) {
  FILE *n = __wrap_fopen(name, mode);
  if (f == stdin) stdin = n ? n : fopencookie(new FC{0, (i64)1 << 60, 0, false}, "r", cookie_io_functions_t{fc_read, nullptr, nullptr, nullptr});
  return n;
}
extern "C" int __wrap_fileno(FILE *f) { return f == stdout ? 1 : f == stderr ? 2 : f == stdin ? 0 : 900; }
extern "C" int __wrap_isatty(int) { return 0; }
extern "C" int __wrap_fsync(int) { return 0; }
extern "C" int __wrap_access(const char *n, int) { if (vlookup(n) >= 0) return 0; errno = ENOENT; return -1; }
extern "C" int __wrap_remove(const char *n) {
  Sys s;
  int i = vlookup(n);
  if (i < 0) { errno = ENOENT; return -1; }
  C->f[i].used = 0;
  trace("remove %s", n);
  return 0;
}
extern "C" int __wrap_unlink(const char *n) { return __wrap_remove(n); }
extern "C" int __wrap_rename(const char *a, const char *b) {
  Sys s;
  int i = vlookup(a), j = vlookup(b);
  if (i < 0) { errno = ENOENT; return -1; }
  if (j >= 0) C->f[j].used = 0;
  snprintf(C->f[i].name, sizeof C->f[i].name, "%s", b);
  trace("rename %s %s", a, b);
  return 0;
}
extern "C" int __wrap_system(const char *) { errno = ENOSYS; return -1; }
extern "C" char *__wrap_getenv(const char *) { return nullptr; }

static ssize_t out_write(void *c, const char *buf, size_t n) {
  Sys s;
  int which = (int)(intptr_t)c;
  if (which == 0) {
    i64 e = decide(D_STDOUT, [] { return chance(C->p_stdout) ? (i64)EPIPE : 0; });
    if (e) { errno = (int)e; return 0; }
  }
  if (C->outlen + n <= OUTCAP && C->nchunk < 20000) {
    memcpy(C->out + C->outlen, buf, n);
    auto &k = C->chunk[C->nchunk++];
    k.p = me; k.cmd = which ? -1 - C->p[me].cmd : C->p[me].cmd; k.off = C->outlen; k.len = n; k.t = C->now;
    C->outlen += n;
    for (size_t i = 0; i < n; i++) C->hash = (C->hash ^ (unsigned char)buf[i]) * 0x100000001b3ull;
    trace("%s %zu bytes", which ? "stderr" : "stdout", n);
  } else C->overflow |= 4;
  return n;
}

/* ---------- shared memory segments ---------- */
static i64 shm_fault(const char *what) {
  i64 v = decide(D_SHM, [] { return chance(C->p_shm) ? (i64)(chance(0.5) ? ENOMEM : chance(0.5) ? EACCES : ENOSPC) : 0; });
  if (v == 1000) { trace("killed before %s", what); die_self(SIGKILL); }
  return v;
}
static int seg_by_key(int key) { for (int i = 0; i < MAXSEG; i++) if (C->seg[i].used && !C->seg[i].rmid && C->seg[i].key == key) return i; return -1; }
static int seg_by_id(int id) { for (int i = 0; i < MAXSEG; i++) if (C->seg[i].used && C->seg[i].id == id) return i; return -1; }
extern "C" int __wrap_shmget(key_t key, size_t size, int fl) {
  Sys s;
  i64 v = shm_fault("shmget");
  int r = -1;
  if (v && v < 1000) { trace("shmget fails %d", (int)v); errno = (int)v; return -1; }
  int i = seg_by_key(key);
  if (i >= 0) {
    if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; }
    else if (size > C->seg[i].size) { errno = EINVAL; }
    else r = C->seg[i].id;
  } else if (!(fl & IPC_CREAT)) errno = ENOENT;
  else {
    u64 tot = size;
    for (auto &g : C->seg) if (g.used) tot += g.size;
    int j = 0;
    while (j < MAXSEG && C->seg[j].used) j++;
    if (j == MAXSEG || (C->shm_limit && tot > (u64)C->shm_limit)) { errno = j == MAXSEG ? ENOSPC : ENOMEM; }
    else if (!size) errno = EINVAL;
    else {
      VSeg &g = C->seg[j];
      memset(&g, 0, sizeof g);
      g.used = 1; g.key = key; g.id = 32768 + C->nextshm++; g.size = (size + 4095) & ~4095ull; g.fdi = j; g.mode = fl & 0777; g.creator = me;
      if (ftruncate(seg_fd[j], 0) || ftruncate(seg_fd[j], g.size)) {}
      g.size = size;
      r = g.id;
    }
  }
  int er = errno;
  trace("shmget %d %zu -> %d", (int)key, size, r);
  if (v == 1001) die_self(SIGKILL);
  errno = er;
  return r;
}
extern "C" void *__wrap_shmat(int id, const void *addr, int fl) {
  Sys s;
  i64 v = shm_fault("shmat");
  if (v && v < 1000) { trace("shmat fails %d", (int)v); errno = (int)v; return (void *)-1; }
  int i = seg_by_id(id);
  if (i < 0) { errno = EINVAL; return (void *)-1; }
  VSeg &g = C->seg[i];
  u64 len = (g.size + 4095) & ~4095ull;
  u64 h = hash3(C->garbage_seed, id, me * 1000 + C->p[me].ord[D_SHM]);
  void *p = (void *)-1;
  for (int t = 0; t < 64; t++, h += 0x1234567) {
    u64 a = 0x610000000000ull + (h % 200) * (16ull << 30);
    p = mmap((void *)a, len, (fl & SHM_RDONLY) ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, seg_fd[g.fdi], 0);
    if (p != MAP_FAILED) break;
  }
  if (p == MAP_FAILED) { errno = ENOMEM; return (void *)-1; }
  for (auto &m : C->map) if (!m.used) { m.used = 1; m.proc = me; m.seg = i; m.addr = p; m.size = len; m.ro = (fl & SHM_RDONLY) != 0; break; }
  g.nattch++;
  trace("shmat %d%s -> %p", id, (fl & SHM_RDONLY) ? " read-only" : "", p);
  if (v == 1001) die_self(SIGKILL);
  return p;
}
extern "C" int __wrap_shmdt(const void *a) {
  Sys s;
  i64 v = shm_fault("shmdt");
  if (v && v < 1000) { errno = EINVAL; return -1; }
  for (auto &m : C->map) if (m.used && m.proc == me && m.addr == a) {
    munmap(m.addr, m.size);
    m.used = 0;
    VSeg &g = C->seg[m.seg];
    g.nattch--;
    if (g.rmid && g.nattch <= 0) { g.used = 0; if (ftruncate(seg_fd[g.fdi], 0)) {} }
    trace("shmdt");
    return 0;
  }
  errno = EINVAL;
  return -1;
}
extern "C" int __wrap_shmctl(int id, int cmd, struct shmid_ds *b) {
  Sys s;
  i64 v = shm_fault("shmctl");
  if (v && v < 1000) { errno = EPERM; trace("shmctl fails"); return -1; }
  int i = seg_by_id(id);
  if (i < 0) { errno = EINVAL; return -1; }
  VSeg &g = C->seg[i];
  if (cmd == IPC_STAT) { memset(b, 0, sizeof *b); b->shm_segsz = g.size; b->shm_nattch = g.nattch; b->shm_perm.mode = g.mode; }
  if (cmd == IPC_RMID) {
    g.rmid = 1;
    trace("shmctl remove %d, %d attached", id, g.nattch);
    if (g.nattch <= 0) { g.used = 0; if (ftruncate(seg_fd[g.fdi], 0)) {} }
  }
  if (v == 1001) die_self(SIGKILL);
  return 0;
}
extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n != SYS_futex) { long r = sysc(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
  Sys s;
  u64 key = (u64)a;
  for (auto &m : C->map) if (m.used && m.proc == me && (char *)a >= (char *)m.addr && (char *)a < (char *)m.addr + m.size) key = ((u64)(m.seg + 1) << 48) + ((char *)a - (char *)m.addr);
  int op = (int)b & 0x7f;
  if (op == FUTEX_WAKE) {
    long k = 0;
    for (int i = 0; i < C->np && k < c; i++) { Proc &Q = C->p[i]; if (Q.used && Q.state == ST_BLOCKED && Q.wait_kind == WK_FUTEX && Q.fkey == key) { Q.state = ST_READY; Q.fwoken = 1; k++; } }
    return k;
  }
  if (op != FUTEX_WAIT) { errno = ENOSYS; return -1; }
  if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
  i64 e1 = decide(D_WAIT, [] { return chance(C->p_eintr) ? (i64)1 : 0; });
  if (e1) { errno = EINTR; return -1; }
  Proc &P = C->p[me];
  P.fkey = key; P.fwoken = 0;
  const struct timespec *ts = (const struct timespec *)d;
  block(WK_FUTEX, ts ? C->now + (i64)ts->tv_sec * SEC + ts->tv_nsec * NS : -1);
  P.fkey = 0;
  if (P.fwoken) return 0;
  errno = ETIMEDOUT;
  return -1;
}

/* ---------- server ---------- */
static void on_crash(int sig, siginfo_t *si, void *uc) {
  if (me < 0) { _exit(99); }
  in_kernel = 1;
  account();
  Proc &P = C->p[me];
  P.crash_pc = (i64)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  P.crash_addr = (i64)si->si_addr;
  trace("crash: signal %d at pc 0x%llx", sig, (long long)P.crash_pc);
  if (C->want_trace) {
    extern char __executable_start, etext;
    u64 *sp = (u64 *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP];
    for (int i = 0, n = 0; i < 4096 && n < 14; i++)
      if (sp[i] > (u64)&__executable_start && sp[i] < (u64)&etext) { n++; trace("  on the stack: 0x%llx", (long long)sp[i]); }
  }
  die_self(sig);
}
/* the stack a process starts on holds what ran there before */
__attribute__((noinline)) static void dirty_stack(u64 salt) {
  char b[1 << 18];
  u64 x = hash3(C->garbage_seed, salt, 4711);
  for (size_t i = 0; i + 8 <= sizeof b; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 y = C->garbage == 2 ? 0x0101010101010101ull * (x >> 56 ? 0xa5 : 0x5a) : x ^ (x >> 29); memcpy(b + i, &y, 8); }
  asm volatile("" : : "r"(b) : "memory");
}
static void run_command(int idx, const std::vector<std::string> &av) {
  me = idx;
  stdin = fopencookie(new FC{0, 0, 0, false}, "r", cookie_io_functions_t{[](void *, char *, size_t) -> ssize_t { return 0; }, nullptr, nullptr, nullptr});
  stdout = fopencookie((void *)0, "w", cookie_io_functions_t{nullptr, out_write, nullptr, nullptr});
  stderr = fopencookie((void *)1, "w", cookie_io_functions_t{nullptr, out_write, nullptr, nullptr});
  setbuf(stderr, nullptr);
  if (C->heap_shift > 0) { void *x = __real_malloc(C->heap_shift); (void)x; }
  static char *argv[64];
  int n = 0;
  for (auto &a : av) argv[n++] = strdup(a.c_str());
  argv[n] = nullptr;
  fwait(&C->p[idx].tok);
  C->p[idx].started = C->now;
  trace("command %d starts", idx);
  arm();
  in_kernel = 0;
  if (C->garbage) dirty_stack(idx);
  int r = gkc_real_main(n, argv);
  end_process(r);
}
static FILE *in, *outp;
static std::string getline_() { static char *b; static size_t n; ssize_t r = getline(&b, &n, in); if (r <= 0) return ""; while (r && (b[r - 1] == '\n')) r--; return std::string(b, r); }
static std::string blob(size_t n) { std::string s(n, 0); if (n && fread(&s[0], 1, n, in) != n) _exit(0); fgetc(in); return s; }

static void reset() {
  size_t keep = offsetof(CB, cov);
  memset((void *)C, 0, keep);
  C->bb_ps = 8400; C->ncpu = 4; C->max_bb = 200000000; C->stall_max = 100000000; C->tod_jump = 3600000000000ll; C->garbage_seed = 1; C->disk_cap = -1;
  C->trlen = 0; C->now = 0; C->hash = 0xcbf29ce484222325ull; C->ilv = 7;
  for (int i = 0; i < MAXF; i++) if (ftruncate(file_fd[i], 0)) {}
  for (int i = 0; i < MAXSEG; i++) if (ftruncate(seg_fd[i], 0)) {}
}
static void setcfg(const std::string &k, double v, const std::string &raw) {
  i64 i = atoll(raw.c_str());
#define I(x) else if (k == #x) C->x = i
#define D(x) else if (k == #x) C->x = v
  if (0) {} I(replay); I(bb_ps); I(ncpu); I(max_bb); I(quantum); I(stall_max); I(clock_gran); I(tod_jump); I(garbage); I(garbage_seed); I(heap_shift); I(lowmem);
  I(memlimit); I(sigchld_ign); I(read_chunk); I(chunk_rand); I(shmhash); I(shm_limit); I(die_procs); I(calm); I(storm_end); I(want_trace); I(disk_cap); I(mal_armed);
  D(p_stall); D(p_die); D(p_fork); D(p_eintr); D(p_malloc); D(p_open); D(p_read); D(p_readshort); D(p_write); D(p_close); D(p_shm); D(p_clock); D(p_tod); D(p_sleep); D(p_stdout);
  else { fprintf(outp, "ERROR unknown key %s\n", k.c_str()); fflush(outp); _exit(2); }
}
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  clearenv();
  in = fdopen(dup(0), "r"); outp = fdopen(dup(1), "w");
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0); dup2(dn, 1);
  if (argc < 2) dup2(dn, 2);
  sysc(SYS_prctl, PR_SET_CHILD_SUBREAPER, 1);
  sysc(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
  C = (CB *)mmap((void *)0x500000000000ull, sizeof(CB), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  for (int i = 0; i < MAXF; i++) file_fd[i] = memfd_create("f", 0);
  for (int i = 0; i < MAXSEG; i++) seg_fd[i] = memfd_create("s", 0);
  stack_t ss; ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
  extern int __real_sigaction(int, const struct sigaction *, struct sigaction *) asm("__real_sigaction");
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) __real_sigaction(s, &sa, nullptr);
  signed dummy = 0; (void)dummy;
  std::vector<std::vector<std::string>> cmds;
  std::vector<std::string> wantfiles;
  reset();
  for (;;) {
    std::string l = getline_();
    if (l.empty()) { if (feof(in)) return 0; continue; }
    std::vector<std::string> w;
    { size_t i = 0; while (i <= l.size()) { size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size(); w.push_back(l.substr(i, j - i)); i = j + 1; } }
    if (w[0] == "SEED") {
      u64 x = strtoull(w[1].c_str(), 0, 10);
      for (auto &v : C->rng) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; v = z ^ (z >> 31); }
    } else if (w[0] == "SET") setcfg(w[1], atof(w[2].c_str()), w[2]);
    else if (w[0] == "DEC") { if (C->nforced < MAXFORCED) C->forced[C->nforced++] = {atoi(w[1].c_str()), atoi(w[2].c_str()), strtoull(w[3].c_str(), 0, 10), atoll(w[4].c_str())}; }
    else if (w[0] == "FILE") {
      std::string b = blob(strtoull(w[3].c_str(), 0, 10));
      int i = 0; while (i < MAXF && C->f[i].used) i++;
      if (i < MAXF) { C->f[i].used = 1; snprintf(C->f[i].name, 200, "%s", w[1].c_str()); C->f[i].mode = atoi(w[2].c_str()); if (pwrite(file_fd[i], b.data(), b.size(), 0) < 0) {} }
    } else if (w[0] == "CMD") {
      int n = C->np++;
      Proc &P = C->p[n];
      P.used = 1; P.state = ST_WAITSTART; P.parent = -1; P.chldign = C->sigchld_ign; P.cmd = n; P.vpid = 1000 + n; P.wake = P.alarm_at = -1;
      P.start_at = atoll(w[1].c_str()) * NS; P.after = atoi(w[2].c_str());
      C->ncmd = C->np;
      std::vector<std::string> av;
      for (int k = 0; k < atoi(w[3].c_str()); k++) { size_t n = strtoull(getline_().c_str(), 0, 10); av.push_back(blob(n)); }
      cmds.push_back(av);
    } else if (w[0] == "WANT") wantfiles.push_back(w[1]);
    else if (w[0] == "RUN") {
      std::sort(C->forced, C->forced + C->nforced, [](const Dec &a, const Dec &b) { return a.p != b.p ? a.p < b.p : a.cls != b.cls ? a.cls < b.cls : a.ord < b.ord; });
      fflush(outp);
      for (int i = 0; i < C->ncmd; i++) {
        int r = __real_fork();
        if (r < 0) { fprintf(outp, "ERROR fork\n"); fflush(outp); _exit(2); }
        if (r == 0) run_command(i, cmds[i]);
        C->p[i].real = r;
      }
      C->srv_tok = 0;
      int first = choose_next();
      give_to(first);
      struct timespec ts = {1, 0};
      double waited = 0;
      bool hung = false;
      while (!__atomic_load_n(&C->srv_tok, __ATOMIC_ACQUIRE)) {
        long r = sysc(SYS_futex, (long)&C->srv_tok, FUTEX_WAIT, 0, (long)&ts);
        if (r == -ETIMEDOUT) {
          waited += 1;
          int run = C->running;
          if (run >= 0 && C->p[run].real > 0 && sysc(SYS_kill, C->p[run].real, 0) == -ESRCH) { hung = true; break; }
          if (waited > 100) { hung = true; break; }
        }
      }
      if (!C->deadlock && !C->clipped && !hung) {}
      for (int i = 0; i < C->np; i++) if (C->p[i].state != ST_ZOMBIE || hung) kill_real(i);
      for (;;) { int st; int r = (int)sysc(SYS_wait4, -1, (long)&st, 0, 0); if (r == -ECHILD) break; if (r < 0 && r != -EINTR) break; }
      if (hung) { fprintf(outp, "HUNG\nEND\n"); fflush(outp); _exit(3); }
      fprintf(outp, "RES now %lld bb %llu hash %016llx ilv %016llx deadlock %d clipped %d overflow %d np %d switches %llu mallocs %llu\n", (long long)(C->now / NS), (unsigned long long)C->tot_bb,
              (unsigned long long)C->hash, (unsigned long long)C->ilv, C->deadlock, C->clipped, C->overflow, C->np, (unsigned long long)C->switches, (unsigned long long)C->mallocs);
      for (int i = 0; i < C->np; i++) {
        Proc &P = C->p[i];
        fprintf(outp, "PROC %d %d %d %d %d %lld %lld %lld %llu %llx %llx %llu\n", i, P.parent, P.cmd, P.state == ST_ZOMBIE ? 1 : 0, P.wstatus, (long long)(P.started / NS), (long long)(P.ended / NS),
                (long long)(P.cpu / NS), (unsigned long long)P.bb, (unsigned long long)P.crash_pc, (unsigned long long)P.crash_addr, (unsigned long long)P.ord[D_MALLOC]);
      }
      for (int i = 0; i < C->ncmd; i++) fprintf(outp, "LEFT %d %d %lld %016llx\n", i, C->cmd_left[i], (long long)(C->cmd_left_end[i] / NS), (unsigned long long)C->cmd_shmhash[i]);
      for (int c = 1; c < D_N; c++) if (C->faults[c]) fprintf(outp, "FAULT %s %llu\n", clsname[c], (unsigned long long)C->faults[c]);
      for (auto &g : C->seg) if (g.used && !g.rmid) fprintf(outp, "SHM %d %llu %d\n", g.key, (unsigned long long)g.size, g.nattch);
      for (int i = 0; i < C->nlog; i++) fprintf(outp, "DEC %d %d %llu %lld\n", C->log[i].p, C->log[i].cls, (unsigned long long)C->log[i].ord, (long long)C->log[i].val);
      for (int i = 0; i < C->nchunk; i++) {
        fprintf(outp, "OUT %d %d %lld %llu\n", C->chunk[i].p, C->chunk[i].cmd, (long long)(C->chunk[i].t / NS), (unsigned long long)C->chunk[i].len);
        fwrite(C->out + C->chunk[i].off, 1, C->chunk[i].len, outp); fputc('\n', outp);
      }
      for (int i = 0; i < MAXF; i++) if (C->f[i].used) {
        struct stat st; fstat(file_fd[i], &st);
        bool want = std::find(wantfiles.begin(), wantfiles.end(), std::string(C->f[i].name)) != wantfiles.end();
        u64 h = 1469598103934665603ull;
        std::string b;
        if (want) { b.resize(st.st_size); if (pread(file_fd[i], &b[0], b.size(), 0) < 0) {} }
        fprintf(outp, "FILE %s %llu %d\n", C->f[i].name, (unsigned long long)st.st_size, want ? 1 : 0);
        if (want) { fwrite(b.data(), 1, b.size(), outp); fputc('\n', outp); }
      }
      if (C->want_trace) { fprintf(outp, "TRACE %llu\n", (unsigned long long)C->trlen); fwrite(C->tr, 1, C->trlen, outp); fputc('\n', outp); }
      fprintf(outp, "END\n");
      fflush(outp);
      reset(); cmds.clear(); wantfiles.clear();
    } else if (w[0] == "COV") {
      fprintf(outp, "COV "); for (int i = 0; i < COVN; i += 4) fputc("0123456789abcdef"[C->cov[i] | C->cov[i + 1] << 1 | C->cov[i + 2] << 2 | C->cov[i + 3] << 3], outp);
      fprintf(outp, "\n"); fflush(outp);
    }
  }
}
