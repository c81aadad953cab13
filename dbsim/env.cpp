/* Simulated operating system under the database code: time, futexes and
 * sleeps here; memory, shared memory and stdio in env2.cpp. */
#include "sim.h"
#include <cerrno>
#include <ctime>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" {
long __real_syscall(long, ...);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
clock_t __real_clock();
int __real_usleep(unsigned);
int __real_sched_yield();
}

static u64 futex_key(const void *a) {
  /* the same word of a segment has one key whatever address it is mapped at */
  for (auto &m : W.maps)
    if ((char *)a >= (char *)m.addr && (char *)a < (char *)m.addr + m.len)
      return ((u64)(m.seg + 1) << 40) + ((char *)a - (char *)m.addr) + 1;
  return (u64)a;
}

/* waits longer on a log scale */
static i64 logdur(i64 lo, i64 hi) {
  double l = __builtin_log((double)lo), h = __builtin_log((double)hi);
  double u = (S.rng.next() >> 11) * (1.0 / 9007199254740992.0);
  return (i64)__builtin_exp(l + u * (h - l));
}

extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long g) {
  if (!S.on || n != SYS_futex) {
    if (n == SYS_futex) return 0;
    return __real_syscall(n, a, b, c, d, e, g);
  }
  int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  S.step();
  u64 key = futex_key((void *)a);
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    /* another client may run between the store that released us and the wake */
    S.access((void *)arena_lo, 1);
    long n = 0;
    for (auto &x : S.f)
      if (n < (int)c && x.st == Fiber::BLOCKED && x.futex_key == key) { S.wake(x.id, WR_WAKE); n++; }
    S.ev("futex wake -> %ld", n);
    return n;
  }
  if (op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET) { errno = ENOSYS; return -1; }
  S.access((void *)arena_lo, 1);
  if (*(volatile int *)a != (int)c) { errno = EAGAIN; S.ev("futex wait: value changed"); return -1; }
  const struct timespec *ts = (const struct timespec *)d;
  i64 until = -1;
  if (ts) {
    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; S.ev("futex wait: EINVAL"); return -1; }
    until = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (op == FUTEX_WAIT) until += S.now;
    if (until < S.now) until = S.now;
  }
  /* 1 signal at once, 2 signal after d, 3 spurious wake after d, 4 killed after d */
  i64 flt = S.decide(DC_FUTEX, [&]() -> i64 {
    if (S.pol.p_die > 0 && S.rng.chance(S.pol.p_die)) return 4 + 8 * logdur(100, 500000000);
    if (!S.rng.chance(S.pol.p_futex_fault)) return 0;
    int k = 1 + S.rng.below(3);
    return k == 1 ? 1 : k + 8 * logdur(100, 1000000000);
  });
  int k = flt & 7;
  i64 dd = flt >> 3;
  S.ev("futex wait");
  if (k == 1) { S.faults["futex_eintr"]++; errno = EINTR; return -1; }
  i64 u = until;
  if (k >= 2 && (until < 0 || S.now + dd < until)) u = S.now + dd; else k = 0;
  S.block(u, key);
  if (S.me().wake_reason == WR_TIMER) {
    if (k == 2) { S.faults["futex_eintr"]++; errno = EINTR; S.ev("futex wait: signal"); return -1; }
    if (k == 3) { S.faults["futex_spurious"]++; S.ev("futex wait: spurious wake"); return 0; }
    if (k == 4) { S.die(); }
    S.ev("futex wait: timeout");
    S.faults["timeout"]++;
    errno = ETIMEDOUT;
    return -1;
  }
  S.ev("futex wait: woken");
  return 0;
}

extern "C" int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (!S.on) return 0;
  S.step();
  if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
  i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  /* 1 interrupted half way, 2 oversleeps, 4 killed */
  i64 flt = S.decide(DC_SLEEP, [&]() -> i64 {
    if (S.pol.p_die > 0 && S.die_ok && S.rng.chance(S.pol.p_die / 4)) return 4;
    if (!S.rng.chance(S.pol.p_sleep_fault)) return 0;
    return S.rng.chance(0.5) ? 1 : 2 + 8 * logdur(1000, 20000000);
  });
  int k = flt & 7;
  i64 d = t;
  if (k == 1) d = t / 2;
  if (k == 2) { d = t + (flt >> 3); S.lost += flt >> 3; S.faults["oversleep"]++; }
  S.block(S.now + d, 0);
  if (k == 4) S.die();
  if (k == 1) {
    S.faults["sleep_eintr"]++;
    if (rem) { rem->tv_sec = (t - d) / 1000000000; rem->tv_nsec = (t - d) % 1000000000; }
    errno = EINTR;
    return -1;
  }
  return 0;
}
extern "C" int __wrap_usleep(unsigned us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return __wrap_nanosleep(&ts, nullptr);
}
extern "C" int __wrap_sched_yield() {
  if (S.on) { S.step(); S.block(S.now + 100, 0); }
  return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (!S.on) return __real_clock_gettime(id, ts);
  S.step();
  i64 t = S.now + (id == CLOCK_REALTIME ? 1700000000ll * 1000000000 : 0);
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *) {
  i64 t = S.now + 1700000000ll * 1000000000;
  tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000;
  if (S.on) S.step();
  return 0;
}
extern "C" time_t __wrap_time(time_t *p) {
  time_t t = S.now / 1000000000 + 1700000000ll;
  if (p) *p = t;
  return t;
}
extern "C" clock_t __wrap_clock() { return S.now / 1000; }
