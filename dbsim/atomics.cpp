/* D01: atomic field operations of concurrent clients are linearizable. */
#include "seg.h"
#include <algorithm>

/* op: {kind 0 update 1 set 2 add 3 get, slot, value, old value, think ns}
 * values are given as {class, payload} packed: class in the low 3 bits */
enum { V_NULL, V_INT, V_CHAR, V_DATE, V_TIME, V_LONGINT, V_STR, V_VAR };
static const int NSLOT = 6;
static char *DB0;
static void *rec_of[SEG_CLIENTS][NSLOT];
static gint longint_enc, str_enc;
static const gint SMALLMAX = ((gint)1 << 60) - 1, SMALLMIN = -((gint)1 << 60);

static gint enc(i64 v) {
  i64 x = v >> 3;
  switch (v & 7) {
    case V_INT: return wg_encode_int(DB0, x);
    case V_CHAR: return wg_encode_char(DB0, (char)(x & 127));
    case V_DATE: return wg_encode_date(DB0, (int)(x & 0xffff));
    case V_TIME: return wg_encode_time(DB0, (int)(x & 0xffff));
    case V_LONGINT: return longint_enc;
    case V_STR: return str_enc;
    case V_VAR: return wg_encode_var(DB0, x & 0xff);
  }
  return 0;
}
static bool immediate(i64 v) { int c = v & 7; return c != V_LONGINT && c != V_STR; }

static Program gen(u64 seed) {
  Rng r(seed * 0x9E3779B1u + 5);
  Program p;
  int nc = r.range(2, r.chance(0.7) ? 3 : 6);
  int total = r.range(2, 18);
  p.cfg["clients"] = nc;
  p.cfg["lock"] = r.chance(0.25);
  p.cfg["idx"] = r.chance(0.2) ? (r.chance(0.5) ? 2 : 1) : 0;   /* column 1 has an index (2: hash) */
  int nslots = r.range(1, r.chance(0.6) ? 1 : NSLOT);
  p.cfg["slots"] = nslots;
  auto edge = [&]() -> i64 {
    switch (r.below(7)) {
      case 0: return 0;
      case 1: return r.range(-3, 3);
      case 2: return r.range(-100000, 100000);
      case 3: return SMALLMAX - r.range(0, 3);
      case 4: return SMALLMIN + r.range(0, 3);
      case 5: return ((i64)1 << r.range(26, 59)) + r.range(-2, 2);
      default: return -((i64)1 << r.range(26, 59)) + r.range(-2, 2);
    }
  };
  bool ints = r.chance(0.6);
  std::vector<i64> pool;
  for (int i = 0; i < 4; i++) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    int c = ints || x < 0.5 ? V_INT : x < 0.6 ? V_NULL : x < 0.7 ? V_CHAR : x < 0.8 ? V_DATE : x < 0.88 ? V_TIME : x < 0.93 ? V_VAR : x < 0.97 ? V_LONGINT : V_STR;
    i64 pay = c == V_INT ? edge() : c == V_LONGINT || c == V_STR || c == V_NULL ? 0 : r.range(0, 120);
    pool.push_back(pay * 8 + c);
  }
  for (int i = 0; i < nslots; i++) p.cfg["init" + std::to_string(i)] = r.chance(0.6) ? (r.chance(0.5) ? edge() : 0) * 8 + V_INT : r.pick(pool);
  p.ops.resize(nc);
  std::vector<double> w = {(double)r.below(3), (double)r.below(3), (double)(1 + r.below(3)), 0.5};
  double tw = w[0] + w[1] + w[2] + w[3];
  for (int c = 0; c < nc; c++) p.cfg["cost" + std::to_string(c)] = r.chance(0.1) ? 2000 : r.pick(std::vector<i64>{1, 5, 20, 100});
  std::vector<i64> deltas = {1, 1, -1, 2, 7, -5, 2147483647, -2147483647 - 1, 268435455, 1000};
  for (int i = 0; i < total; i++) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * tw;
    int k = 0; while (k < 3 && x >= w[k]) { x -= w[k]; k++; }
    int sl = r.below(nslots);
    i64 v = k == 2 ? r.pick(deltas) : r.pick(pool);
    i64 o = r.chance(0.5) ? p.cfg["init" + std::to_string(sl)] : r.pick(pool);
    p.ops[r.below(nc)].push_back({k, sl, v, o, r.chance(0.3) ? (i64)r.below(3000) : 0});
  }
  return p;
}

struct Ev { int client, kind, slot; gint a, b; bool aimm, bimm; i64 delta; i64 call, ret; gint res; bool done; };
static std::vector<Ev> hist;
static i64 tick;

static void client(int c, const Program &p, char *db) {
  for (auto &op : p.ops[c]) {
    int k = op[0], sl = op[1];
    if (sl >= p.get("slots", 1)) continue;
    if (op[4]) S.sleep_ns(op[4]);
    gint l = 0;
    if (p.get("lock")) { l = wg_start_read(db); if (!l) { S.ev("no read lock"); G.counters["no_lock"]++; continue; } }
    Ev e = {c, k, sl, 0, 0, true, true, 0, 0, 0, 0, false};
    if (k == 2) e.delta = op[2];
    else if (k < 2) { e.a = enc(op[2]); e.aimm = immediate(op[2]); e.b = enc(op[3]); e.bimm = immediate(op[3]); }
    void *rec = rec_of[c][sl];
    int fld = sl % 2;
    e.call = ++tick;
    size_t at = hist.size();
    hist.push_back(e);
    S.ev("op %d on slot %d", k, sl);
    S.die_ok = true;
    gint res;
    if (k == 0) res = wg_update_atomic_field(db, rec, fld, e.a, e.b);
    else if (k == 1) res = wg_set_atomic_field(db, rec, fld, e.a);
    else if (k == 2) res = wg_add_int_atomic_field(db, rec, fld, (int)e.delta);
    else res = wg_get_field(db, rec, fld);
    S.die_ok = false;
    hist[at].res = res; hist[at].ret = ++tick; hist[at].done = true;
    S.ev("returns %lld", (long long)res);
    G.counters[std::string(k == 0 ? "update" : k == 1 ? "set" : k == 2 ? "add" : "get") + (k == 3 || res == 0 ? "" : std::to_string(res))]++;
    if (l) wg_end_read(db, l);
  }
}

/* the sequential meaning: possible? and the value afterwards */
static bool apply(const Ev &e, bool indexed, gint v, gint &nv) {
  nv = v;
  auto isimm = [](gint x) { return x == 0 || ((x & 3) == 3); };
  if (e.kind == 3) return !e.done || e.res == v;
  if (e.kind == 0) {
    gint want;
    if (!e.aimm) want = -10; else if (!e.bimm) want = -11; else if (indexed) want = -13;
    else if (v == e.b) { want = 0; nv = e.a; } else want = -15;
    return !e.done || e.res == want;
  }
  if (e.kind == 1) {
    gint want;
    if (!e.aimm) want = -10; else if (!isimm(v)) want = -11; else if (indexed) want = -13; else { want = 0; nv = e.a; }
    if (e.done && e.res == -17 && want == 0) { nv = v; return true; }   /* gave up after a thousand tries */
    return !e.done || e.res == want;
  }
  gint want;
  if ((v & 7) != 3) want = -11;
  else {
    gint sum = (v >> 3) + e.delta;
    if (sum > SMALLMAX || sum < SMALLMIN) want = -16;
    else if (indexed) want = -13;
    else { want = 0; nv = (sum << 3) | 3; }
  }
  if (e.done && e.res == -17 && want == 0) { nv = v; return true; }
  return !e.done || e.res == want;
}

/* Wing and Gong's search with memoisation on (set of linearised operations, value) */
static bool linearizable(std::vector<Ev> &ev, bool indexed, gint init, gint fin) {
  int n = ev.size();
  if (n > 24) return true;
  std::set<std::pair<u64, gint>> seen;
  u64 must = 0;
  for (int i = 0; i < n; i++) if (ev[i].done) must |= 1ull << i;
  std::function<bool(u64, gint)> go = [&](u64 done, gint v) -> bool {
    if ((done & must) == must && v == fin) return true;
    if (!seen.insert({done, v}).second) return false;
    i64 first_ret = INT64_MAX;
    for (int i = 0; i < n; i++) if (!(done >> i & 1) && ev[i].done) first_ret = std::min(first_ret, ev[i].ret);
    for (int i = 0; i < n; i++) {
      if (done >> i & 1 || ev[i].call > first_ret) continue;
      gint nv;
      if (apply(ev[i], indexed, v, nv) && go(done | 1ull << i, nv)) return true;
    }
    return false;
  };
  return go(0, init);
}

static std::string exec(const Program &p, u64 seed, const std::vector<Dec> *rep) {
  Seg &sg = segment(400000);
  sg.reset();
  int nc = p.get("clients"), ns = p.get("slots", 1);
  S.reset(seed, nc);
  DB0 = sg.map[0];
  char *db = DB0;
  int nrec = (ns + 1) / 2;
  std::vector<gint> off, init(ns);
  longint_enc = wg_encode_int(db, (gint)0x7000000000000001ll);
  str_enc = wg_encode_str(db, (char *)"a string of more than thirty-two characters", nullptr);
  for (int i = 0; i < nrec; i++) { void *r = wg_create_record(db, 3); if (!r) return "setup: no record"; off.push_back((char *)r - db); }
  for (int i = 0; i < ns; i++) { init[i] = enc(p.get(("init" + std::to_string(i)).c_str(), 3)); wg_set_new_field(db, db + off[i / 2], i % 2, init[i]); }
  int idx = p.get("idx");
  if (idx) { gint id = wg_create_index(db, 1, idx == 2 ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE, nullptr, 0); if (id < 0) idx = 0; }
  for (int c = 0; c < nc; c++) for (int i = 0; i < ns; i++) rec_of[c][i] = sg.map[c] + off[i / 2];
  Rng r(seed * 0x9E3779B97F4A7C15ull + 7);
  S.pol = draw_policy(r, p);
  if (r.chance(0.6)) { S.pol.p_plain = r.pick(std::vector<double>{0.6, 0.3, 0.15}); S.pol.p_volatile = std::max(S.pol.p_volatile, 0.3); }
  S.pol.pct_len = 20 + r.below(2000);
  S.pol.p_stall = r.pick(std::vector<double>{0, 0, 0.1});
  S.pol.stall_max = r.pick(std::vector<i64>{1000, 1000000});
  S.pol.p_die = r.pick(std::vector<double>{0, 0, 0, 0.03});
  if (rep) S.load(*rep);
  hist.clear(); tick = 0;
  S.max_steps = 20000000;
  for (int c = 0; c < nc; c++) S.f[c].body = [c, &p, &sg]() { client(c, p, sg.map[c]); };
  S.run();
  fold_stats();
  if (S.failed) return S.failure;
  if (S.clipped || S.deadlock) return p.get("lock") && S.faults["client_death"] ? "" : "hang: an atomic field operation does not return";
  for (int i = 0; i < ns; i++) {
    std::vector<Ev> ev;
    for (auto &e : hist) if (e.slot == i) ev.push_back(e);
    gint fin = wg_get_field(db, db + off[i / 2], i % 2);
    G.states.insert((u64)fin * 31 + ev.size());
    if (!linearizable(ev, idx && i % 2 == 1, init[i], fin)) {
      std::string w = "not-linearizable: no order of the calls on field " + std::to_string(i) + " explains the results; it held " + std::to_string(init[i]) + " and ends with " + std::to_string(fin) + ":";
      for (auto &e : ev) {
        char b[160];
        const char *nm[] = {"update", "set", "add", "get"};
        if (e.kind == 2) snprintf(b, sizeof b, " client %d add %lld", e.client, (long long)e.delta);
        else snprintf(b, sizeof b, " client %d %s %lld (old %lld)", e.client, nm[e.kind], (long long)e.a, (long long)e.b);
        w += b; if (e.done) w += " -> " + std::to_string(e.res); else w += " -> died";
        w += " [" + std::to_string(e.call) + ".." + std::to_string(e.ret) + "];";
      }
      return w;
    }
    gint third = wg_get_field(db, db + off[i / 2], 2);
    if (third != 0) return "stray-write: a field nobody wrote has changed";
  }
  return "";
}
void reg_atomics() { checks.push_back({"D01", gen, exec}); }
