#include "harness.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <unistd.h>

std::vector<Check> checks;
static Program cur_prog;
static u64 cur_seed;
static const Check *cur_check;
static std::string out_dir;
static bool in_replay;
static int true_stdout = 1;

extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
static double wall() {
  struct timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static std::string dump_replay(const Program &p, u64 seed, const std::vector<Dec> &log, const std::string &what) {
  std::string o = "check " + std::string(cur_check->name) + "\nvariant " + variant_name + "\nseed " + std::to_string(seed) + "\nexpect " + what + "\n";
  for (auto &c : p.cfg) o += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
  for (size_t i = 0; i < p.ops.size(); i++)
    for (auto &op : p.ops[i]) { o += "op " + std::to_string(i); for (i64 v : op) o += " " + std::to_string(v); o += "\n"; }
  for (auto &d : log) o += "dec " + std::to_string(d.fiber) + " " + std::to_string(d.cls) + " " + std::to_string(d.ord) + " " + std::to_string(d.val) + "\n";
  return o;
}
static std::string write_replay(const std::string &what, const std::vector<Dec> &log) {
  std::string path = out_dir + "/" + cur_check->name + "-" + variant_name + "-" + std::to_string(cur_seed) + ".raw";
  std::string s = dump_replay(cur_prog, cur_seed, log, what);
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
  return path;
}
static void outline(const std::string &s) { if (write(true_stdout, s.data(), s.size()) < 0) {} }

static void on_crash(int sig) {
  const char *nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGALRM ? "no progress" : "SIGABRT";
  std::string what = sig == SIGALRM ? "hang: the run does not end (wall clock watchdog)" : std::string("crash: ") + nm + " in the code under test";
  S.on = false;
  if (in_replay) { outline("RESULT " + what + "\n"); _exit(1); }
  std::string p = write_replay(what, S.log);
  outline("VIOL " + p + " " + what + "\n");
  _exit(3);
}

void fold_stats() {
  G.steps += S.steps; G.switches += S.switches; G.preempts += S.preempts;
  G.simtime_s += (S.now - 1000000000ll) / 1e9;
  for (auto &x : S.faults) G.faults[x.first] += x.second;
  if (G.ilv.size() < 4000000) G.ilv.insert(S.ilv_hash);
  if (S.clipped) G.clipped++;
}

Policy draw_policy(Rng &r, const Program &p) {
  Policy q;
  q.mode = r.chance(0.25) ? 1 : 0;
  static const double pv[] = {0.5, 0.25, 0.1, 0.05, 0.02, 0.005};
  q.p_volatile = pv[r.below(6)];
  static const double pp[] = {0, 0, 0.3, 0.1, 0.02, 0.003};
  q.p_plain = pp[r.below(6)];
  q.pct_depth = r.range(1, 6);
  q.pct_len = 200 + r.below(6000);
  int n = p.ops.size();
  for (int i = 0; i < n; i++) q.step_cost.push_back(p.get(("cost" + std::to_string(i)).c_str(), 10));
  return q;
}

static bool parse_replay(const char *path, Program &p, std::vector<Dec> &d, std::string &check, u64 &seed, std::string &expect) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  static char line[65536];
  while (fgets(line, sizeof line, f)) {
    char *nl = strchr(line, '\n'); if (nl) *nl = 0;
    char *sp = strchr(line, ' '); if (!sp) continue;
    *sp = 0; char *rest = sp + 1;
    std::string k = line;
    if (k == "check") check = rest;
    else if (k == "seed") seed = strtoull(rest, 0, 10);
    else if (k == "expect") expect = rest;
    else if (k == "cfg") { char *s2 = strrchr(rest, ' '); *s2 = 0; p.cfg[rest] = strtoll(s2 + 1, 0, 10); }
    else if (k == "op") {
      char *e; size_t c = strtoull(rest, &e, 10);
      if (p.ops.size() <= c) p.ops.resize(c + 1);
      std::vector<i64> op;
      while (*e) { op.push_back(strtoll(e, &e, 10)); while (*e == ' ') e++; }
      p.ops[c].push_back(op);
    } else if (k == "dec") {
      Dec x; char *e;
      x.fiber = strtol(rest, &e, 10); x.cls = strtol(e, &e, 10); x.ord = strtoull(e, &e, 10); x.val = strtoll(e, &e, 10);
      d.push_back(x);
    }
  }
  fclose(f);
  i64 nc = p.get("clients", p.ops.size());
  if ((i64)p.ops.size() < nc) p.ops.resize(nc);
  return true;
}

static const Check *find(const std::string &n) {
  for (auto &c : checks) if (n == c.name) return &c;
  fprintf(stderr, "no check %s\n", n.c_str());
  exit(2);
}

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  /* what the code under test prints must not matter */
  true_stdout = dup(1);
  int dn = open("/dev/null", O_WRONLY);
  if (!getenv("DBSIM_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
  stack_t ss; ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  arena_init((size_t)8 << 30);
  register_checks();

  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    Program p; std::vector<Dec> d; std::string chk, expect; u64 seed = 0;
    if (!parse_replay(argv[2], p, d, chk, seed, expect)) return 2;
    cur_check = find(chk); cur_prog = p; cur_seed = seed; in_replay = true;
    if (argc > 3) S.want_trace = true;
    alarm(60);
    std::string r = cur_check->exec(p, seed, &d);
    alarm(0);
    if (S.want_trace) outline(S.trace_text);
    char b[64]; snprintf(b, sizeof b, "HASH %016llx\n", (unsigned long long)S.trace_hash);
    outline(b);
    outline("RESULT " + (r.empty() ? std::string("ok") : r) + "\n");
    return r.empty() ? 0 : 1;
  }
  if (argc < 7) return 2;
  /* run <check> <first seed> <stride> <max runs> <seconds> <outdir> */
  cur_check = find(argv[2]);
  u64 seed = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), maxruns = strtoull(argv[5], 0, 10);
  double limit = atof(argv[6]);
  out_dir = argv[7];
  double t0 = wall();
  u64 redone = 0, nondet = 0, nontrivial = 0, maxlog = 0, sumlog = 0;
  std::string samples;
  for (u64 i = 0; i < maxruns; i++, seed += stride) {
    if ((i & 7) == 0 && wall() - t0 > limit) break;
    cur_seed = seed;
    cur_prog = cur_check->gen(seed);
    alarm(60);
    std::string r = cur_check->exec(cur_prog, seed, nullptr);
    G.runs++;
    bool nt = S.preempts > 0;
    for (auto &x : S.faults) if (x.second) nt = true;
    if (nt) nontrivial++;
    sumlog += S.log.size(); maxlog = std::max<u64>(maxlog, S.log.size());
    u64 h = S.trace_hash;
    if (nt && G.runs_hash.size() < 400000) G.runs_hash.insert(h);
    if (samples.size() < 3000 && i < 4) {
      std::vector<Dec> few(S.log.begin(), S.log.begin() + std::min<size_t>(S.log.size(), 12));
      std::string d = dump_replay(cur_prog, seed, few, r.empty() ? "ok" : r);
      for (char &c : d) if (c == '\n') c = ';';
      for (size_t k = 0; k < d.size(); k++) if (d[k] == '"' || d[k] == '\\') d[k] = '\'';
      samples += (samples.empty() ? "\"" : ",\"") + d.substr(0, 900) + "\"";
    }
    bool redo = !r.empty() || (i % 50) == 7;
    if (redo) {
      auto log = S.log;
      Stats keep = Stats(); std::swap(keep, G);
      /* the same seed again, and the recorded decisions replayed */
      std::string r2 = cur_check->exec(cur_prog, seed, nullptr);
      u64 h2 = S.trace_hash;
      std::string r3 = cur_check->exec(cur_prog, seed, &log);
      u64 h3 = S.trace_hash;
      std::swap(keep, G);
      redone++;
      if (h2 != h || h3 != h || r2 != r || r3 != r) {
        nondet++;
        std::string p = write_replay("nondeterminism", log);
        char b[300]; snprintf(b, sizeof b, "NONDET %s seed %llu %llx %llx %llx\n", p.c_str(), (unsigned long long)seed, (unsigned long long)h, (unsigned long long)h2, (unsigned long long)h3);
        outline(b); outline("  " + r + " | " + r2 + " | " + r3 + "\n");
        return 4;
      }
      if (!r.empty()) {
        std::string p = write_replay(r, log);
        outline("VIOL " + p + " " + r + "\n");
        return 3;
      }
    }
  }
  alarm(0);
  {
    std::string hp = out_dir + "/hashes-" + std::to_string(getpid());
    int fd = open(hp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    std::vector<u64> a(G.runs_hash.begin(), G.runs_hash.end()), b;
    u64 na = a.size();
    for (u64 x : G.ilv) { if (b.size() >= 400000) break; b.push_back(x); }
    if (write(fd, &na, 8) != 8 || write(fd, a.data(), na * 8) < 0 || write(fd, b.data(), b.size() * 8) < 0) {}
    close(fd);
    outline("HASHES " + hp + "\n");
  }
  std::string o = "STATS {";
  auto num = [&](const char *k, double v) { char b[100]; snprintf(b, sizeof b, "\"%s\":%.10g,", k, v); o += b; };
  num("runs", G.runs); num("steps", G.steps); num("switches", G.switches); num("preempts", G.preempts);
  num("sim_seconds", G.simtime_s); num("distinct_interleavings", G.ilv.size()); num("distinct_histories", G.runs_hash.size());
  num("distinct_states", G.states.size()); num("redone", redone); num("nontrivial", nontrivial); num("clipped", G.clipped);
  num("max_decisions", maxlog); num("avg_decisions", G.runs ? (double)sumlog / G.runs : 0); num("wall_s", wall() - t0); num("last_seed", seed);
  auto mp = [&](const char *k, std::map<std::string, u64> &m) {
    o += std::string("\"") + k + "\":{"; bool first = true;
    for (auto &x : m) { o += (first ? "\"" : ",\"") + x.first + "\":" + std::to_string(x.second); first = false; }
    o += "},";
  };
  mp("faults", G.faults); mp("counters", G.counters);
  o += "\"samples\":[" + samples + "]}\n";
  outline(o);
  return 0;
}
