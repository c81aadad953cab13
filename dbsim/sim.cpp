#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <sys/mman.h>
#include <unistd.h>

Sim S;
Stats G;
char *arena_lo, *arena_hi;
ShmWorld W;

static const size_t STK = 256 * 1024;
static std::vector<char *> stack_pool;
static void *main_sp;

extern "C" void sim_switch_asm(void **save, void *to);
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

static void to_main() {
  void *dummy;
  int c = S.cur;
  S.cur = -1;
  sim_switch_asm(c >= 0 ? &S.f[c].sp : &dummy, main_sp);
}

static void fiber_entry() {
  Fiber &me = S.me();
  me.body();
  Fiber &m2 = S.me();
  m2.st = Fiber::DONE;
  S.mark(0x777 + m2.id);
  int n = S.pick_next(true);
  if (n < 0) { to_main(); }
  S.switch_to(n);
  abort();
}

void arena_init(size_t bytes) {
  void *p = mmap((void *)0x600000000000ull, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("arena"); exit(97); }
  arena_lo = (char *)p;
  arena_hi = arena_lo + bytes;
}

void Sim::reset(u64 seed, int nf) {
  rng.reseed(seed);
  f.clear();
  f.resize(nf);
  for (int i = 0; i < nf; i++) {
    Fiber &x = f[i];
    x.id = i;
    if ((size_t)i >= stack_pool.size()) {
      char *p = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      stack_pool.push_back(p);
    }
    x.stack = stack_pool[i];
    memset(x.ord, 0, sizeof x.ord);
  }
  rdec.clear(); log.clear();
  rpre.assign(nf, {}); rdie.assign(nf, {}); rstall.assign(nf, {});
  ipre.assign(nf, 0); idie.assign(nf, 0); istall.assign(nf, 0);
  cur = -1; on = false; nosched = 0; now = 1000000000ll; cpu = lost = 0; steps = 0; next_timer = -1;
  ilv_hash = 0x1234; trace_hash = 0xcbf29ce484222325ull;
  switches = preempts = 0; clipped = deadlock = failed = false; failure.clear();
  trace_text.clear(); faults.clear(); pct_points.clear(); pct_i = 0;
  die_ok = false; after_death = 400000;
  replay = false;
}

void Sim::load(const std::vector<Dec> &d) {
  replay = true;
  for (auto &x : d) {
    if (x.fiber < 0 || x.fiber >= (int)f.size()) continue;
    if (x.cls == DC_PREEMPT) rpre[x.fiber].push_back({x.ord, x.val});
    else if (x.cls == DC_STALL) rstall[x.fiber].push_back({x.ord, x.val});
    else if (x.cls == DC_DIE) rdie[x.fiber].push_back({x.ord, x.val});
    else rdec[deckey(x.fiber, x.cls, x.ord)] = x.val;
  }
  for (auto *v : {&rpre, &rstall, &rdie}) for (auto &w : *v) std::sort(w.begin(), w.end());
}

void Sim::draw_pre() {
  auto geo = [&](double p) -> i64 {
    if (p <= 0) return (i64)1 << 60;
    if (p >= 1) return 1;
    double u = ((rng.next() >> 11) + 1) * (1.0 / 9007199254740994.0);
    i64 k = 1 + (i64)(__builtin_log(u) / __builtin_log(1 - p));
    return k < 1 ? 1 : k;
  };
  if (pre_v <= 0) pre_v = geo(pol.p_volatile);
  if (pre_p <= 0) pre_p = geo(pol.p_plain);
}

void Sim::ev(const char *fmt, ...) {
  char b[400];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (char *p = b; *p; p++) trace_hash = (trace_hash ^ (unsigned char)*p) * 0x100000001b3ull;
  trace_hash ^= (u64)now * 0x9E3779B97F4A7C15ull ^ (u64)(cur + 1);
  if (want_trace && trace_text.size() < (1u << 22)) {
    char h[80];
    snprintf(h, sizeof h, "%12.6f ms  client %d  ", (now - 1000000000ll) / 1e6, cur);
    trace_text += h; trace_text += b; trace_text += "\n";
  }
}

void Sim::recompute_timer() {
  next_timer = -1;
  for (auto &x : f) if (x.st == Fiber::BLOCKED && x.wake_at >= 0 && (next_timer < 0 || x.wake_at < next_timer)) next_timer = x.wake_at;
}

void Sim::fire_timers() {
  for (auto &x : f)
    if (x.st == Fiber::BLOCKED && x.wake_at >= 0 && x.wake_at <= now) {
      x.st = Fiber::READY; x.wake_at = -1; x.futex_key = 0; x.wake_reason = WR_TIMER;
    }
  recompute_timer();
}

void Sim::wake(int id, int reason) {
  Fiber &x = f[id];
  if (x.st != Fiber::BLOCKED) return;
  x.st = Fiber::READY; x.wake_at = -1; x.futex_key = 0; x.wake_reason = reason;
  recompute_timer();
}

/* next fiber when the current one cannot continue; -1 when nothing is left */
int Sim::pick_next(bool) {
  for (;;) {
    std::vector<int> r;
    int n = f.size(), base = cur < 0 ? 0 : cur + 1;
    for (int k = 0; k < n; k++) { int i = (base + k) % n; if (f[i].st == Fiber::READY) r.push_back(i); }
    if (!r.empty()) {
      int c = cur < 0 ? 0 : cur;
      u64 o = f[c].ord[DC_NEXT]++;
      int pick = r[0];
      if (replay) {
        auto it = rdec.find(deckey(c, DC_NEXT, o));
        if (it != rdec.end()) for (int i : r) if (i == it->second - 1) pick = i;
      } else {
        if (pol.mode == 1) { for (int i : r) if (f[i].prio > f[pick].prio) pick = i; }
        else pick = r[rng.below(r.size())];
        if (pick != r[0]) log.push_back({c, DC_NEXT, o, pick + 1});
      }
      return pick;
    }
    if (next_timer >= 0) { if (next_timer > now) now = next_timer; fire_timers(); continue; }
    return -1;
  }
}

void Sim::switch_to(int id) {
  if (id == cur) return;
  switches++;
  int c = cur;
  cur = id;
  mark((f[c].access << 8) + id + 1);
  sim_switch_asm(&f[c].sp, f[id].sp);
}

void Sim::fail(const std::string &w) {
  if (!failed) { failed = true; failure = w; ev("VIOLATION %s", w.c_str()); }
  on = false;
  if (cur >= 0) to_main();
}

void Sim::die() {
  f[cur].st = Fiber::DEAD;
  faults["client_death"]++;
  ev("dies");
  if (max_steps > steps + after_death) max_steps = steps + after_death;   /* the others may wait for it for ever */
  int n = pick_next(true);
  if (n < 0) to_main();
  switch_to(n);
  abort();
}

void Sim::step() {
  if (!on || nosched) return;
  steps++;
  i64 c = cur < (int)pol.step_cost.size() ? pol.step_cost[cur] : 10;
  now += c; cpu += c;
  if (next_timer >= 0 && now >= next_timer) fire_timers();
  if (steps > max_steps) { clipped = true; on = false; to_main(); }
}

void Sim::access(const void *, int kind) {
  step();
  if (nosched) return;
  Fiber &me = f[cur];
  u64 o = me.access++;
  if (replay) {
    auto &dv = rdie[cur];
    while (idie[cur] < dv.size() && dv[idie[cur]].first < o) idie[cur]++;
    if (idie[cur] < dv.size() && dv[idie[cur]].first == o) { die(); }
    auto &sv = rstall[cur];
    while (istall[cur] < sv.size() && sv[istall[cur]].first < o) istall[cur]++;
    if (istall[cur] < sv.size() && sv[istall[cur]].first == o) { i64 d = sv[istall[cur]].second; lost += d; faults["stall"]++; ev("stalls %lld ns", (long long)d); block(now + d, 0); return; }
    auto &pv = rpre[cur];
    while (ipre[cur] < pv.size() && pv[ipre[cur]].first < o) ipre[cur]++;
    if (ipre[cur] < pv.size() && pv[ipre[cur]].first == o) {
      int t = (int)pv[ipre[cur]].second - 1;
      if (t >= 0 && t < (int)f.size() && t != cur && f[t].st == Fiber::READY) { preempts++; switch_to(t); }
    }
    return;
  }
  if (pol.mode == 1) {
    if (pct_i < pct_points.size() && steps >= pct_points[pct_i]) { pct_i++; me.prio = -(i64)pct_i; }
    int best = cur;
    for (auto &x : f) if (x.st == Fiber::READY && x.prio > f[best].prio) best = x.id;
    if (best != cur) { log.push_back({cur, DC_PREEMPT, o, best + 1}); preempts++; switch_to(best); }
    return;
  }
  bool hit = false;
  if (kind >= 1) { if (--pre_v <= 0) hit = true; }
  else { if (--pre_p <= 0) hit = true; }
  if (!hit) return;
  draw_pre();
  if (pol.p_die > 0 && die_ok && rng.chance(pol.p_die)) { log.push_back({cur, DC_DIE, o, 1}); die(); }
  if (pol.p_stall > 0 && rng.chance(pol.p_stall)) {
    i64 d = 1; int b = rng.below(64); while (d < pol.stall_max && b-- > 0 && d < ((i64)1 << 50)) { d *= 2; if (rng.chance(0.06)) break; }
    d += rng.below(d);
    log.push_back({cur, DC_STALL, o, d});
    lost += d; faults["stall"]++; ev("stalls %lld ns", (long long)d);
    block(now + d, 0);
    return;
  }
  int cand[64], nc = 0;
  for (auto &x : f) if (x.id != cur && x.st == Fiber::READY && nc < 64) cand[nc++] = x.id;
  if (!nc) return;
  int t = cand[rng.below(nc)];
  log.push_back({cur, DC_PREEMPT, o, t + 1});
  preempts++;
  switch_to(t);
}

void Sim::block(i64 until, u64 fkey) {
  Fiber &me = f[cur];
  me.st = Fiber::BLOCKED; me.wake_at = until; me.futex_key = fkey; me.wake_reason = 0;
  recompute_timer();
  int n = pick_next(true);
  if (n < 0) {
    deadlock = true; ev("nothing can run");
    on = false;
    to_main();
  }
  switch_to(n);
}

void Sim::sleep_ns(i64 ns) { block(now + (ns < 0 ? 0 : ns), 0); }

i64 Sim::decide(int cls, const std::function<i64()> &gen) {
  int c = cur < 0 ? 0 : cur;
  u64 o = f[c].ord[cls]++;
  if (replay) {
    auto it = rdec.find(deckey(c, cls, o));
    return it == rdec.end() ? 0 : it->second;
  }
  i64 v = gen();
  if (v) log.push_back({c, cls, o, v});
  return v;
}

void Sim::run() {
  int n = f.size();
  for (int i = 0; i < n; i++) {
    Fiber &x = f[i];
    u64 *sp = (u64 *)(x.stack + STK);
    *--sp = 0;                    /* alignment: at entry rsp % 16 == 8 */
    *--sp = (u64)fiber_entry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    x.sp = sp;
    x.st = Fiber::READY;
  }
  if (!replay) {
    if (pol.mode == 1) {
      std::vector<int> p(n);
      for (int i = 0; i < n; i++) p[i] = i;
      for (int i = n - 1; i > 0; i--) std::swap(p[i], p[rng.below(i + 1)]);
      for (int i = 0; i < n; i++) f[i].prio = 100 + p[i];
      for (int i = 0; i < pol.pct_depth; i++) pct_points.push_back(rng.below(pol.pct_len));
      std::sort(pct_points.begin(), pct_points.end());
    }
    pre_v = pre_p = 0; draw_pre();
  }
  on = true;
  int first = pick_next(true);
  cur = first;
  sim_switch_asm(&main_sp, f[first].sp);
  on = false; cur = -1;
}

int cur_proc() { return S.cur < 0 ? 0 : S.cur; }
