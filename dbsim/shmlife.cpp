/* D07: named segments made, attached, detached and deleted by concurrent
 * processes while the system calls fail and processes die. */
#include "store.h"
#include "env2.h"
#include <climits>
#include <sys/stat.h>
#include <unistd.h>
extern "C" { int wg_memmode(void *db); int wg_memowner(void *db); extern void *wg_attached_kb_segment; void *wg_attach_memsegment(char *, gint, gint, int, int, int); void *wg_attach_database_mode(char *, gint, int); gint wg_init_db_memsegment_with_kb(void *, gint, gint, void *); gint wg_database_size(void *); gint wg_database_freesize(void *); }
/* op: {kind, name, size index, extra, think}
 * kinds: 0 attach(size) 1 attach(size, mode) 2 attach existing 3 memsegment(min, size, create, mode)
 * 4 detach 5 delete 6 look 7 write (own new segment) 8 load a dump into it (own new segment) */
static const gint SIZES[] = {0, 160000, 200000, 160001, 300000, 1000000, 153000, 154500, 100000, 1, 100, 2000, 3000, 4096, 8192, 50000, -5, 70000000, 155000, 158000};
static const int NS = sizeof SIZES / sizeof *SIZES;
struct Handle { char *db; int seg; bool rw; gint size; };
struct SegInfo { gint size; bool done = false; bool busy = false; int creator; u64 created, removed = ~0ull; bool written = false; int mode; std::vector<i64> recs; bool loaded = false; int ver = 0; };
static std::map<int, SegInfo> info;                 /* by segment id */
static std::vector<std::vector<Handle>> hs;
static u64 clk;                                     /* event counter */
static size_t seen_log;
static std::map<int, u64> removed_at, created_at; static std::map<int, int> key_of;
static std::vector<int> inop;                       /* per process: an operation is under way */

static std::map<gint, std::vector<char>> refs;
static const std::vector<char> &ref(gint size) {
  auto it = refs.find(size);
  if (it != refs.end()) return it->second;
  bool on = S.on; S.on = false;
  size_t n = (std::max<gint>(size, 8192) + 4095) & ~4095l;
  char *b = (char *)calloc(1, n);
  std::vector<char> v;
  if (!wg_init_db_memsegment_with_kb(b, 0, size, nullptr)) v.assign(b, b + dbmemsegh(b)->free);
  free(b);
  S.on = on;
  return refs[size] = v;
}
static void sync_log() {
  for (; seen_log < SO.log.size(); seen_log++) {
    auto &l = SO.log[seen_log];
    if (l.what == 'c') { created_at[l.id] = ++clk; key_of[l.id] = l.key; }
    else removed_at[l.id] = ++clk;
  }
}
static int keynum(int name) { static const int k[] = {1000, 7, 1001, INT_MAX - 1}; return k[name % 4]; }
static const char *keytext(int name, int extra) {
  switch (name % 4) {
    case 0: return extra % 4 == 0 ? nullptr : extra % 4 == 1 ? "1000" : extra % 4 == 2 ? "-3" : "none";
    case 1: return "7";
    case 2: return "1001";
    default: return "2147483646";
  }
}
static u64 total_faults() { u64 n = 0; for (auto &x : S.faults) n += x.second; return n; }
static int nmaps(int c) { int n = 0; for (auto &m : W.maps) if (m.proc == c && (char *)m.addr >= SO.base()) n++; return n; }
static ShmMap *map_of(char *a) { for (auto &m : W.maps) if (m.addr == a) return &m; return nullptr; }
static std::string check_handle(const Handle &h, const char *when) {
  std::string w = std::string(" (") + when + ")";
  if (wg_database_size(h.db) != h.size) return "half made: the database says it has " + std::to_string(wg_database_size(h.db)) + " bytes, the segment was made with " + std::to_string(h.size) + w;
  const std::vector<char> &rf = ref(h.size);
  SegInfo &si = info[h.seg];
  int ver0 = si.ver;
  if (!si.written && !si.busy && !si.loaded && !rf.empty()) {
    std::vector<char> im(h.db, h.db + rf.size());
    db_memsegment_header *a = (db_memsegment_header *)im.data();
    const db_memsegment_header *b = (const db_memsegment_header *)rf.data();
    a->initialadr = b->initialadr; a->key = b->key;
    if (im != rf && info[h.seg].ver == ver0) { size_t i = 0; while (im[i] == rf[i]) i++; return "half made: the attached database is not a fresh one, byte " + std::to_string(i) + w; }
  }
  if (!si.busy) {
    /* a reader that takes no lock is only promised a good view while nobody writes */
    std::vector<i64> got; void *p = wg_get_first_record(h.db);
    while (p && got.size() < 1000) { got.push_back(wg_decode_int(h.db, wg_get_field(h.db, p, 0))); if (info[h.seg].ver != ver0) return ""; p = wg_get_next_record(h.db, p); }
    if (info[h.seg].ver != ver0) return "";
    for (i64 v : got) { bool found = false; for (i64 x : si.recs) if (x == v) found = true; if (!found) return "wrong contents: a record " + std::to_string(v) + " nobody wrote" + w; }
    if (got.size() != si.recs.size()) return "wrong contents: " + std::to_string(got.size()) + " records of " + std::to_string(si.recs.size()) + w;
  }
  return "";
}
static int norm_mode(int m) { m = (m & 0666) | 0600; if ((m & 0060) != 0060) m &= 0606; if ((m & 0006) != 0006) m &= 0660; return m; }
static std::string attach_op(int c, const std::vector<i64> &op, int nc) {
  int kind = op[0], name = op[1], key = keynum(name);
  char *nm = (char *)keytext(name, op[3]);
  gint size = SIZES[op[2] % NS], min = size;
  static const int modes[] = {0, 0600, 0660, 0666, 0640, 0777, 0444};
  int mode = kind == 1 || kind == 3 ? modes[op[3] % 7] : 0;
  bool create = kind != 2;
  if (kind == 2) size = min = 0;
  if (kind == 3) { create = op[3] % 5 != 0; min = op[3] % 3 == 0 ? 160000 : op[3] % 3 == 1 ? 0 : size; }
  sync_log();
  u64 t0 = ++clk, f0 = total_faults(); size_t l0 = SO.log.size(); int m0 = nmaps(c);
  bool others = false; for (int x : inop) if (x) others = true;
  size_t tot0 = 0; for (auto &s : W.segs) if (s.live) tot0 += s.size;
  inop[c] = 1;
  char *db = (char *)(kind == 0 ? wg_attach_database(nm, size) : kind == 1 ? wg_attach_database_mode(nm, size, mode)
    : kind == 2 ? wg_attach_existing_database(nm) : wg_attach_memsegment(nm, min, size, create, 0, mode));
  inop[c] = 0;
  sync_log();
  u64 t1 = ++clk;
  bool fault = total_faults() != f0;
  /* what happened to the name meanwhile, by whom */
  int mine = -1, nmine = 0; bool foreign = others;
  for (size_t i = l0; i < SO.log.size(); i++) {
    auto &l = SO.log[i];
    if (l.proc == c && l.what == 'c') { mine = l.id; nmine++; if (l.key != key) return "wrong name: attaching " + std::to_string(key) + " makes segment " + std::to_string(l.key); }
    if (l.proc == c && l.what == 'd') { bool own = false; for (size_t j = l0; j < i; j++) if (SO.log[j].proc == c && SO.log[j].what == 'c' && SO.log[j].id == l.id) own = true; if (!own) return "damage: attaching removes a segment of somebody else"; }
    if (l.proc != c && l.key == key) foreign = true;
  }
  S.ev("process %d attach %d: %s", c, key, db ? "attached" : "refused");
  gint want = size < (min < 0 ? 0 : min) ? (min < 0 ? 0 : min) : size;
  gint lo = min < 0 ? 0 : min;
  if (!want) want = 10000000;
  if (db) {
    ShmMap *m = map_of(db);
    if (!m || m->proc != c) return "half made: the database is at an address where nothing is attached";
    if (nmaps(c) != m0 + 1) return "leak: attaching leaves " + std::to_string(nmaps(c) - m0) + " maps";
    ShmSeg &sg = W.segs[m->seg];
    if (sg.key != key) return "wrong name: attached to " + std::to_string(sg.key) + " instead of " + std::to_string(key);
    if (removed_at.count(sg.id) && removed_at[sg.id] < t0) return "deleted: attached to a segment deleted before";
    if (lo && (gint)sg.size < lo) return "wrong size: " + std::to_string(sg.size) + " bytes when at least " + std::to_string(lo) + " are asked for";
    if (dbmemsegh(db)->mark != MEMSEGMENT_MAGIC_MARK) return "half made: the database is not complete";
    if (sg.owner == c && mine == sg.id) {
      if (!create) return "created: an existing database was asked for";
      if ((gint)sg.size != want && !((gint)sg.size == lo && (fault || foreign || want >= 60000000 || tot0 + (size_t)want > SO.total))) return "wrong size: made with " + std::to_string(sg.size) + " bytes instead of " + std::to_string(want);
      SegInfo si; si.size = sg.size; si.done = true; si.creator = c; si.mode = norm_mode(mode);
      if (sg.mode != si.mode) return "wrong mode: made with mode " + std::to_string(sg.mode) + " instead of " + std::to_string(si.mode);
      info[sg.id] = si;
      Handle h{db, sg.id, true, (gint)sg.size};
      hs[c].push_back(h);
      G.counters["created"]++;
    } else {
      if (mine >= 0 && !removed_at.count(mine) && !fault) return "left behind: a segment was made and not used";
      auto it = info.find(sg.id);
      if (it == info.end()) { SegInfo si; si.size = sg.size; si.creator = sg.owner; si.mode = sg.mode; if (!inop[sg.owner] && S.f[sg.owner].st != Fiber::DEAD) return "half made: attached to a segment its maker gave up"; info[sg.id] = si; }
      Handle h{db, sg.id, false, (gint)sg.size};
      hs[c].push_back(h);
      G.counters["attached"]++;
    }
    return check_handle(hs[c].back(), "right after attaching");
  }
  G.counters["refused"]++;
  if (nmaps(c) != m0) return "leak: a refused attach leaves a segment attached";
  if (nc == 1 && wg_attached_kb_segment && !map_of((char *)wg_attached_kb_segment)) return "leak: the shared segment in use points to nowhere";
  for (size_t i = l0; i < SO.log.size(); i++) if (SO.log[i].proc == c && SO.log[i].what == 'c' && !removed_at.count(SO.log[i].id) && !fault) return "left behind: a refused attach leaves a new segment";
  /* with a fault the removal itself may have failed; then the log shows it was tried */
  if (fault) {
    u64 ctl = 0; for (auto &x : S.faults) if (x.first.compare(0, 7, "shmctl_") == 0) ctl += x.second;
    static u64 ctl_seen = 0; if (S.faults.size() && ctl < ctl_seen) ctl_seen = 0;
    bool left = false;
    for (size_t i = l0; i < SO.log.size(); i++) if (SO.log[i].proc == c && SO.log[i].what == 'c' && !removed_at.count(SO.log[i].id)) left = true;
    if (left && ctl == 0) return "left behind: a refused attach leaves a new segment";
  }
  if (fault || foreign) return "";
  /* no fault, nobody else: there must be a reason */
  const ShmSeg *ex = nullptr;
  for (auto &s : W.segs) if (s.live && !s.rmid && s.key == key && s.id != mine) ex = &s;
  if (ex) {
    if (!info.count(ex->id) || !info[ex->id].done) { G.counters["refused_half_made"]++; return ""; }
    if (lo && (gint)ex->size < lo) return "";
    return "refused: there is a database of " + std::to_string(ex->size) + " bytes and attaching with " + std::to_string(lo) + " fails";
  }
  if (!create) return "";
  size_t tot = 0; for (auto &s : W.segs) if (s.live) tot += s.size;
  auto can = [&](gint z) { return z >= 160000 && z < 60000000 && tot + z <= SO.total; };
  if (can(want)) return "refused: making a database of " + std::to_string(want) + " bytes fails";
  if (lo && lo < want && !(want >= 1 && want < 60000000 && tot + want <= SO.total) && can(lo)) return "refused: falling back to " + std::to_string(lo) + " bytes fails";
  return "";
}
static std::string step_op(int c, const std::vector<i64> &op, int nc) {
  int k = op[0];
  if (k <= 3) return attach_op(c, op, nc);
  if (k == 5) {
    int key = keynum(op[1]);
    sync_log();
    int live = -1; for (auto &s : W.segs) if (s.live && !s.rmid && s.key == key) live = s.id;
    u64 f0 = total_faults(); size_t l0 = SO.log.size();
    bool others = false; for (int x : inop) if (x) others = true;
    inop[c] = 1;
    int r = wg_delete_database((char *)keytext(op[1], op[3]));
    inop[c] = 0;
    sync_log();
    bool fault = total_faults() != f0, did = false, foreign = others;
    for (size_t i = l0; i < SO.log.size(); i++) { auto &l = SO.log[i]; if (l.proc == c) { if (l.what != 'd' || did) return "wrong result: deleting does more than that"; did = true; if (l.key != key) return "wrong name: deleting " + std::to_string(key) + " removes " + std::to_string(l.key); } else if (l.key == key) foreign = true; }
    S.ev("process %d delete %d: %d", c, key, r);
    if (r == 0 && !did) return "deleted: success is reported and nothing is deleted";
    if (r != 0 && did) return "wrong result: " + std::to_string(r) + " after deleting";
    if (r != 0 && live >= 0 && !fault && !foreign) return "refused: deleting an existing database returns " + std::to_string(r);
    G.counters[r ? "delete_nothing" : "deleted"]++;
    return "";
  }
  auto &v = hs[c];
  if (v.empty()) return "";
  size_t i = op[3] % v.size();
  Handle &h = v[i];
  SegInfo &si = info[h.seg];
  if (k == 4) {
    char *a = h.db; u64 f0 = total_faults();
    inop[c] = 1; int r = wg_detach_database(a); inop[c] = 0;
    S.ev("process %d detach: %d", c, r);
    if (r == 0 && map_of(a)) return "leak: still attached after detaching";
    if (r != 0 && total_faults() == f0) return "wrong result: detaching returns " + std::to_string(r);
    v.erase(v.begin() + i);
    G.counters["detached"]++;
    return "";
  }
  if (k == 6) {
    G.counters["looks"]++;
    std::string w = check_handle(h, "later");
    if (!w.empty()) return w;
    u64 f0 = total_faults();
    bool gone = W.segs[map_of(h.db)->seg].rmid;
    int m = wg_memmode(h.db);
    if (!gone && !removed_at.count(h.seg) && total_faults() == f0 && si.done) {
      sync_log();
      if (!removed_at.count(h.seg) && (m & 0777) != si.mode) return "wrong mode: " + std::to_string(m) + " is reported for a segment with mode " + std::to_string(si.mode);
    }
    return "";
  }
  if (!h.rw) return "";
  bool busy0 = si.busy; if (busy0) return "";
  si.busy = true; si.ver++;
  std::string w;
  if (k == 7) {
    for (int j = 0; j < 1 + op[3] % 3; j++) {
      void *p = wg_create_record(h.db, 1 + j);
      if (!p) { if (h.size > 400000) w = "refused: a fresh database takes no record"; break; }
      gint val = ++clk;
      wg_set_new_field(h.db, p, 0, wg_encode_int(h.db, val));
      si.recs.push_back(val);
    }
    si.written = true;
    G.counters["writes"]++;
  } else if (h.size >= 300000) {
    gint r = wg_import_dump(h.db, (char *)"image");
    S.ev("process %d loads: %lld", c, (long long)r);
    if (r) w = "refused: loading an image into a big enough segment returns " + std::to_string(r);
    si.recs = {4711, 4712}; si.loaded = si.written = true;
    G.counters["loads"]++;
  }
  si.busy = false;
  return w;
}
static void proc(int c, const Program &p, int nc) {
  for (auto &op : p.ops[c]) {
    if (S.failed) return;
    if (op[4]) S.sleep_ns(op[4]);
    std::string w = step_op(c, op, nc);
    if (!w.empty()) { S.fail(w + " (process " + std::to_string(c) + ")"); return; }
  }
}
static std::string image;
static void make_image() {
  bool on = S.on; S.on = false;
  char *db = (char *)wg_attach_local_database(200000);
  dbmemsegh(db)->key = 4444;
  for (i64 v : {4711, 4712}) { void *p = wg_create_record(db, 1); wg_set_new_field(db, p, 0, wg_encode_int(db, v)); }
  char name[] = "/tmp/dbsim-img-XXXXXX";
  int fd = mkstemp(name);
  if (fd < 0 || wg_dump(db, name)) { fprintf(stderr, "cannot make the image\n"); exit(2); }
  FILE *f = fdopen(fd, "rb"); char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) image.append(b, n);
  fclose(f); unlink(name);
  wg_delete_local_database(db);
  S.on = on;
}
static Program gen(u64 seed) {
  Rng r(seed * 0x9E3779B1u + 31);
  Program p;
  int nc = r.chance(0.3) ? 1 : r.range(2, 5);
  p.cfg["procs"] = nc;
  p.cfg["sys"] = r.pick(std::vector<i64>{0, 0, 100, 500, 2000});
  p.cfg["die"] = r.pick(std::vector<i64>{0, 0, 0, 200});
  p.cfg["total"] = r.chance(0.2) ? r.range(100000, 2000000) : 0;
  for (int c = 0; c < nc; c++) p.cfg["cost" + std::to_string(c)] = r.pick(std::vector<i64>{1, 5, 20});
  p.ops.resize(nc);
  int names = r.chance(0.6) ? 1 : 4, total = r.range(2, r.chance(0.3) ? 40 : 14);
  bool odd = r.chance(0.4);
  for (int i = 0; i < total; i++) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    int k = x < 0.25 ? 0 : x < 0.32 ? 1 : x < 0.45 ? 2 : x < 0.53 ? 3 : x < 0.63 ? 4 : x < 0.75 ? 5 : x < 0.87 ? 6 : x < 0.96 ? 7 : 8;
    i64 sz = odd ? r.below(NS) : r.range(1, 5);
    p.ops[r.below(nc)].push_back({k, (i64)r.below(names), sz, (i64)r.below(1000), r.chance(0.4) ? (i64)r.below(r.chance(0.5) ? 3000 : 300000) : 0});
  }
  return p;
}
static std::string exec(const Program &p, u64 seed, const std::vector<Dec> *rep) {
  if (image.empty()) { make_image(); for (gint z : SIZES) if (z > 0 && z < 60000000) ref(z); ref(10000000); }
  int nc = p.get("procs");
  shm_reset();
  SO.log.clear(); SO.total = p.get("total") ? p.get("total") : (size_t)1 << 40;
  S.reset(seed, nc);
  D.reset(); D.files["image"] = image;
  info.clear(); hs.assign(nc, {}); clk = 0; seen_log = 0; removed_at.clear(); created_at.clear(); key_of.clear(); inop.assign(nc, 0);
  wg_attached_kb_segment = nullptr;
  Rng r(seed * 0x9E3779B97F4A7C15ull + 7);
  S.pol = draw_policy(r, p);
  S.pol.p_plain = r.pick(std::vector<double>{0, 0.05, 0.01, 0.001});
  S.pol.pct_len = 1000 + r.below(100000);
  S.pol.p_sys = p.get("sys") / 10000.0; S.pol.p_die = p.get("die") / 10000.0;
  S.pol.p_stall = r.pick(std::vector<double>{0, 0, 0.1});
  S.pol.stall_max = r.pick(std::vector<i64>{1000, 100000});
  if (rep) S.load(*rep);
  S.max_steps = 100000000; S.after_death = 60000000;
  for (int c = 0; c < nc; c++) S.f[c].body = [c, &p, nc]() { proc(c, p, nc); };
  S.run();
  fold_stats();
  if (S.failed) return S.failure;
  if (S.clipped || S.deadlock) return "hang: the processes do not end";
  /* a segment still there was made by an attach that succeeded, or its maker died or could not remove it */
  bool ctl = false; for (auto &x : S.faults) if (x.first.compare(0, 7, "shmctl_") == 0) ctl = true;
  for (auto &s : W.segs) if (s.live && !s.rmid && !info.count(s.id) && S.f[s.owner].st != Fiber::DEAD && !ctl) return "left behind: a segment nobody attached is there at the end";
  for (auto &s : W.segs) if (s.live && s.rmid) { bool held = false; for (auto &v : hs) for (auto &h : v) if (h.seg == s.id) held = true; for (auto &m : W.maps) if (m.seg == (int)(&s - &W.segs[0]) && S.f[m.proc].st == Fiber::DEAD) held = true; if (!held) return "leak: a deleted segment is kept by a process that does not use it"; }
  u64 h = 0; for (auto &l : SO.log) h = h * 31 + l.what * 7 + l.proc * 3 + l.key;
  G.states.insert(h);
  return "";
}
void reg_shm() { checks.push_back({"D07", gen, exec}); }
