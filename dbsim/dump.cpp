/* D05, D06: dumps taken while other clients read and write, loaded into other
 * segments; disks that fail and files that are damaged. */
#include "store.h"
#include "env2.h"
static Model M;
static std::vector<Model> past;          /* contents after each write transaction */
static const size_t SRC = 2000000;
static const size_t DST[3] = {2000000, 2600000, 1300000};
static bool faulty;                      /* D06 */
static size_t began[SEG_CLIENTS];

static std::string fits_one(char *db, size_t v0, size_t v1, size_t &which) {
  std::string w;
  for (size_t v = v1 + 1; v-- > v0;) {
    std::string d = diff_scan(db, past[v], true);
    if (d.empty()) { which = v; return ""; }
    if (w.empty() || v == v0) w = d;
  }
  return w;
}
/* damages the file in a way drawn from the seed; says how */
static std::string damage(std::string &f, Rng &r, const std::string &older) {
  size_t n = f.size();
  auto at = [&]() -> size_t { return r.chance(0.3) ? r.below(std::min<size_t>(n, 8192)) : r.chance(0.2) ? n - 1 - r.below(std::min<size_t>(n, 64)) : r.below(n); };
  switch (r.below(8)) {
    case 0: { size_t k = r.chance(0.3) ? r.pick(std::vector<size_t>{0, 1, 16, 24, 4096, 8191, 8192, 8193, n - 1, n - 8}) : at(); f.resize(std::min(k, n - 1)); return "cut to " + std::to_string(f.size()); }
    case 1: { size_t k = at(); f[k] ^= 1 << r.below(8); return "one bit of byte " + std::to_string(k) + " flipped"; }
    case 2: { size_t k = at(); for (size_t i = k; i < n; i++) f[i] = 0; return "zeros from " + std::to_string(k); }
    case 3: { size_t k = at() / 512 * 512, m = r.pick(std::vector<size_t>{512, 4096}); for (size_t i = k; i < n && i < k + m; i++) f[i] = 0; return "a block of zeros at " + std::to_string(k); }
    case 4: { size_t k = at() / 4096 * 4096; for (size_t i = k; i < n && i < k + 4096; i++) f[i] = i < older.size() ? older[i] : 0; return "an old block at " + std::to_string(k); }
    case 5: { size_t k = 1 + r.below(r.chance(0.5) ? 16 : 9000); f.append(k, r.chance(0.5) ? '\0' : 'x'); return std::to_string(k) + " bytes appended"; }
    case 6: { size_t k = at(), m = 1 + r.below(8); for (size_t i = k; i < n && i < k + m; i++) f[i] = r.below(256); return "bytes at " + std::to_string(k) + " overwritten"; }
    default: { size_t a = at() / 4096 * 4096, b = at() / 4096 * 4096; if (a + 4096 > n || b + 4096 > n) return "nothing"; for (int i = 0; i < 4096; i++) std::swap(f[a + i], f[b + i]); return "two blocks exchanged"; }
  }
}
/* dump, load elsewhere, compare, go on there.  op: {3, seed, n, think, target} */
static std::string dump_op(int c, const Program &p, const std::vector<i64> &op, char *db) {
  Rng r((u64)op[1] * 0x9E3779B97F4A7C15ull + 5);
  std::string name = "dump" + std::to_string(c);
  std::string older = D.files.count(name) ? D.files[name] : "";
  size_t v0 = past.size() - 1;
  size_t had = began[c];
  began[c] = v0;
  gint e = wg_dump(db, (char *)name.c_str());
  size_t v1 = past.size() - 1;
  if (e && D.files[name] == older) began[c] = v0 = had;   /* could not open it: the dump before is still there */
  S.ev("client %d dumps: %lld, versions %zu to %zu, %zu bytes", c, (long long)e, v0, v1, D.files[name].size());
  G.counters[e ? "dump_failed" : "dumps"]++;
  if (e && !faulty && e != -1) return "wrong result: a dump returns " + std::to_string(e);
  if (e == -2) return "wrong result: a dump ends with a fatal error";
  if (e && !faulty) { G.counters["dump_no_lock"]++; return ""; }
  /* the target, used before or not; nobody else touches it */
  int t = op[4] % 3;
  Seg &dst = segment(DST[t], 1 + c);
  dst.reset();
  char *to = dst.map[r.below(SEG_CLIENTS)];
  Model T; T.clear();
  Program tp = p; tp.cfg["kinds"] = 1;
  if (r.chance(0.4)) { txn_write(to, T, {0, (i64)r.below(1u << 30), 5}, tp, c); if (S.failed) return ""; }
  std::vector<char> before(to, to + dst.size);
  auto unchanged = [&]() { return memcmp(before.data(), to, dst.size) == 0; };
  gint mn = -1, mx = -1;
  gint k = wg_check_dump(to, (char *)name.c_str(), &mn, &mx);
  S.ev("check: %lld", (long long)k);
  if (!unchanged()) return "damage: checking a dump changes the database";
  if (k && !e && !faulty) return "lost: a dump that was reported written is refused with " + std::to_string(k);
  if (!e && faulty && k) {
    /* the check may have failed because reading did; what is on the disk must be whole */
    double keep = S.pol.p_io, keepm = S.pol.p_malloc; S.pol.p_io = 0; S.pol.p_malloc = 0;
    gint k2 = wg_check_dump(to, (char *)name.c_str(), &mn, &mx);
    S.pol.p_io = keep; S.pol.p_malloc = keepm;
    if (k2) return "lost: a dump that was reported written is refused with " + std::to_string(k2);
  }
  if (!k && mn != (gint)D.files[name].size()) return "wrong result: the check says " + std::to_string(mn) + " bytes, the file has " + std::to_string(D.files[name].size());
  if (!k && mx != (gint)SRC) return "wrong result: the check says the segment had " + std::to_string(mx) + " bytes";
  if (e && k) { G.counters["bad_dump_refused"]++; return ""; }
  if (e && !k) G.counters["whole_after_failure"]++;
  if (k) return "";
  gint i = wg_import_dump(to, (char *)name.c_str());
  S.ev("load: %lld", (long long)i);
  if (i == -1) {
    if (!unchanged()) return "damage: a refused load changes the database";
    if (!faulty && (size_t)mn <= dst.size) return "refused: loading " + std::to_string(mn) + " bytes into a segment of " + std::to_string(dst.size) + " fails";
    G.counters["load_refused"]++;
    return "";
  }
  if (i == -2) { if (!faulty) return "refused: loading a good dump fails"; G.counters["load_failed"]++; return ""; }
  if (i) return "wrong result: loading returns " + std::to_string(i);
  if ((size_t)mn > dst.size) return "damage: a dump too big for the segment was loaded";
  if (dbmemsegh(to)->size != (gint)dst.size) return "wrong result: the loaded database says it has " + std::to_string(dbmemsegh(to)->size) + " bytes, not " + std::to_string(dst.size);
  size_t v = 0;
  std::string w = fits_one(to, v0, v1, v);
  if (!w.empty()) return "not a snapshot: " + w + " (versions " + std::to_string(v0) + " to " + std::to_string(v1) + ")";
  G.counters["loads"]++;
  if (v1 > v0) G.counters["dumps_with_writers"]++;
  /* the loaded database is used */
  T = past[v];
  int n = r.below(4);
  for (int j = 0; j < n && !S.failed; j++) {
    bool wr = r.chance(0.6);
    gint l = wr ? wg_start_write(to) : wg_start_read(to);
    if (!l) return "locked: nobody uses the loaded database and no lock is given";
    if (wr) txn_write(to, T, {0, (i64)r.below(1u << 30), (i64)r.range(1, 12)}, tp, c);
    else w = diff_scan(to, T, true);
    if (!w.empty()) return w + " (in the loaded database)";
    if (!(wr ? wg_end_write(to, l) : wg_end_read(to, l))) return "wrong result: releasing a lock of the loaded database fails";
  }
  if (S.failed) return "";
  if (n) { w = diff_scan(to, T, true); if (!w.empty()) return w + " (in the loaded database)"; }
  /* damaged copies of the file */
  if (faulty) {
    std::string good = D.files[name];
    int nd = r.below(6);
    for (int j = 0; j < nd; j++) {
      std::string bad = good;
      std::string how = damage(bad, r, older);
      if (bad == good) continue;
      D.files["bad" + std::to_string(c)] = bad;
      before.assign(to, to + dst.size);
      gint x = wg_check_dump(to, (char *)("bad" + std::to_string(c)).c_str(), &mn, &mx);
      S.ev("damaged (%s): %lld", how.c_str(), (long long)x);
      G.counters["damaged_files"]++;
      if (!x) return "damaged file accepted: " + how;
      if (!unchanged()) return "damage: checking a bad file changes the database";
    }
    D.files.erase("bad" + std::to_string(c));
  }
  return "";
}
static void client(int c, const Program &p, char *db) {
  for (auto &op : p.ops[c]) {
    if (S.failed) return;
    if (op[3]) S.sleep_ns(op[3]);
    int k = op[0];
    if (k == 3) { std::string w = dump_op(c, p, op, db); if (!w.empty()) { S.fail(w + " (client " + std::to_string(c) + ")"); return; } continue; }
    gint l = k == 0 ? wg_start_write(db) : wg_start_read(db);
    if (!l) { G.counters["no_lock"]++; S.ev("client %d gets no lock", c); continue; }
    std::string w;
    if (k == 0) {
      txn_write(db, M, op, p, c);
      if (S.failed) return;
      past.push_back(M); G.counters["write_txn"]++;
      S.ev("client %d makes version %zu", c, past.size() - 1);
    } else { w = diff_scan(db, M, k == 1); G.counters["scans"]++; }
    if (!w.empty()) { S.fail(w + " (client " + std::to_string(c) + ")"); return; }
    if (op[4]) S.sleep_ns(op[4]);
    gint e = k == 0 ? wg_end_write(db, l) : wg_end_read(db, l);
    if (!e) { S.fail("wrong result: releasing the lock fails"); return; }
  }
}
/* when everybody has ended: what a dump left behind when its process died is refused or whole */
static void post(int nc) {
  for (;;) {
    bool busy = false;
    for (int c = 0; c < nc; c++) if (S.f[c].st != Fiber::DONE && S.f[c].st != Fiber::DEAD) busy = true;
    if (!busy) break;
    S.sleep_ns(1000000);
  }
  S.pol.p_io = 0; S.pol.p_malloc = 0; D.p_die = 0;
  for (int c = 0; c < nc && !S.failed; c++) {
    std::string name = "dump" + std::to_string(c);
    if (S.f[c].st != Fiber::DEAD || !D.files.count(name)) continue;
    G.counters["dumper_died"]++;
    Seg &dst = segment(DST[1], 1 + c);
    dst.reset();
    char *to = dst.map[c % SEG_CLIENTS];
    gint mn, mx;
    gint k = wg_check_dump(to, (char *)name.c_str(), &mn, &mx);
    S.ev("left by dead client %d: check %lld, %zu bytes", c, (long long)k, D.files[name].size());
    if (k) { if (memcmp(dst.snap.data(), to, dst.size)) { S.fail("damage: a refused dump changes the database"); return; } continue; }
    G.counters["whole_after_death"]++;
    if (wg_import_dump(to, (char *)name.c_str())) { S.fail("refused: loading a good dump fails"); return; }
    size_t v;
    std::string w = fits_one(to, began[c], past.size() - 1, v);
    if (!w.empty()) { S.fail("not a snapshot: " + w + " (left by dead client " + std::to_string(c) + ")"); return; }
  }
}
static Program gen(u64 seed) {
  Rng r(seed * 0x9E3779B1u + 21);
  Program p;
  int nc = r.chance(0.2) ? 1 : r.range(2, 5);
  p.cfg["clients"] = nc;
  p.cfg["kinds"] = r.pick(std::vector<i64>{0, 0, 1, 2});
  p.cfg["maxlen"] = r.pick(std::vector<i64>{8, 40, 200, 3000});
  p.cfg["pdel"] = r.pick(std::vector<i64>{0, 20, 40});
  p.cfg["io"] = r.pick(std::vector<i64>{0, 1, 5, 20, 100});        /* of 10000 */
  p.cfg["mal"] = r.pick(std::vector<i64>{0, 0, 500});
  p.cfg["die"] = r.pick(std::vector<i64>{0, 0, 5, 50});
  p.cfg["cap"] = r.chance(0.2) ? r.range(0, 900000) : -1;
  for (int c = 0; c < nc; c++) p.cfg["cost" + std::to_string(c)] = r.pick(std::vector<i64>{1, 5, 20});
  p.ops.resize(nc + 1);
  p.cfg["cost" + std::to_string(nc)] = 1;
  int total = r.range(2, r.chance(0.2) ? 20 : 10);
  int big = r.chance(0.2) ? 60 : 12;
  int nd = 0;
  for (int i = 0; i < total || !nd; i++) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    int k = x < 0.5 ? 0 : x < 0.6 ? 1 : x < 0.68 ? 2 : 3;
    if (k == 3 && nd >= 3) k = 0;
    if (k == 3) nd++;
    i64 think = r.chance(0.4) ? (i64)r.below(r.chance(0.5) ? 20000 : 400000) : 0;
    p.ops[r.below(nc)].push_back({k, (i64)r.below(1u << 30), r.range(1, big), think, k == 3 ? (i64)r.below(3) : r.chance(0.2) ? (i64)r.below(20000) : 0});
  }
  return p;
}
static std::string exec_x(const Program &p, u64 seed, const std::vector<Dec> *rep, bool f) {
  faulty = f;
  Seg &sg = segment(SRC);
  sg.reset();
  int nc = p.get("clients");
  static bool made = false;
  if (!made) for (int c = 0; c < SEG_CLIENTS; c++) for (size_t z : DST) segment(z, 1 + c);
  made = true;
  S.reset(seed, nc + 1);
  D.reset();
  M.clear(); past.clear(); past.push_back(M);
  Rng r(seed * 0x9E3779B97F4A7C15ull + 7);
  S.pol = draw_policy(r, p);
  S.pol.p_plain = r.pick(std::vector<double>{0, 0.001, 0.0002, 0.00002});
  S.pol.pct_len = 1000 + r.below(1000000);
  S.pol.p_stall = r.pick(std::vector<double>{0, 0, 0.1});
  S.pol.stall_max = r.pick(std::vector<i64>{1000, 100000});
  S.pol.p_die = 0;
  if (f) {
    S.pol.p_io = p.get("io") / 10000.0; S.pol.p_malloc = p.get("mal") / 10000.0;
    D.p_die = p.get("die") / 10000.0;
    if (p.get("cap") >= 0) D.cap = p.get("cap");
  }
  if (rep) S.load(*rep);
  S.max_steps = 100000000; S.after_death = 60000000;
  for (int c = 0; c < nc; c++) S.f[c].body = [c, &p, &sg]() { client(c, p, sg.map[c]); };
  S.f[nc].body = [nc]() { post(nc); };
  S.run();
  fold_stats();
  if (S.failed) return S.failure;
  if (S.clipped || S.deadlock) return std::string("hang: the clients do not end") + (S.clipped ? " (steps)" : "");
  std::string w;
  bool dead = false; for (auto &x : S.f) if (x.st == Fiber::DEAD) dead = true;
  if (!dead) w = diff_scan(sg.map[nc % SEG_CLIENTS], M, true);
  if (!w.empty()) return w + " (at the end)";
  G.states.insert((u64)past.size() * 1000003 + M.next);
  return "";
}
static std::string exec5(const Program &p, u64 seed, const std::vector<Dec> *rep) { return exec_x(p, seed, rep, false); }
static std::string exec6(const Program &p, u64 seed, const std::vector<Dec> *rep) { return exec_x(p, seed, rep, true); }
void reg_dump() { checks.push_back({"D05", gen, exec5}); checks.push_back({"D06", gen, exec6}); }
