/* D04: the storage allocator against a map of live objects, on segments of many sizes, up to exhaustion. */
#include "store.h"
#include <algorithm>
#include <climits>

/* areas: 0 datarec 1 longstr 2 indexhash 3 reasoner (variable length), 4 listcell 5 shortstr 6 word 7 doubleword 8 tnode (fixed) */
static const int NAREA = 9;
static db_area_header *area(char *db, int a) {
  db_memsegment_header *h = dbmemsegh(db);
  switch (a) {
    case 0: return &h->datarec_area_header;
    case 1: return &h->longstr_area_header;
    case 2: return &h->indexhash_area_header;
    case 3: return &h->reasoner_area_header;
    case 4: return &h->listcell_area_header;
    case 5: return &h->shortstr_area_header;
    case 6: return &h->word_area_header;
    case 7: return &h->doubleword_area_header;
  }
  return &h->tnode_area_header;
}
static bool var(int a) { return a < 4; }
static gint fixlen(char *db, int a) { return area(db, a)->objlength; }
struct Obj { int a; gint size; u64 pat; };
static std::map<gint, Obj> live;                 /* by offset */
static std::vector<gint> order[NAREA];           /* live offsets, for random choice */
static Model M;

static gint word_of(u64 pat, gint off, gint k) {
  /* contents that look like object heads and small numbers as well as anything */
  u64 x = pat + (u64)k * 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; x ^= x >> 31;
  switch (pat % 5) {
    case 0: return (gint)x;
    case 1: return (gint)(x % 512);
    case 2: return (gint)((x % 64) * 8 + (x >> 60) % 4);
    case 3: return off - (gint)(x % 32) * 8;
  }
  return (gint)(k * 8 + 1);
}
static void fill(char *db, gint off, const Obj &o) {
  gint *p = (gint *)(db + off), n = o.size / (gint)sizeof(gint);
  for (gint k = var(o.a) ? 1 : 0; k < n; k++) p[k] = word_of(o.pat, off, k);
}
static std::string intact(char *db, gint off, const Obj &o) {
  gint *p = (gint *)(db + off), n = o.size / (gint)sizeof(gint);
  for (gint k = var(o.a) ? 1 : 0; k < n; k++)
    if (p[k] != word_of(o.pat, off, k)) return "overwritten: word " + std::to_string(k) + " of the object of " + std::to_string(o.size) + " bytes at " + std::to_string(off) + " in area " + std::to_string(o.a);
  if (var(o.a) && (!isnormalusedobject(p[0]) || getusedobjectsize(p[0]) < o.size)) return "overwritten: the head of the object of " + std::to_string(o.size) + " bytes at " + std::to_string(off) + " in area " + std::to_string(o.a);
  return "";
}
/* room for the smallest extension that would satisfy this request? */
static bool tight(char *db, int a, gint bytes) {
  db_memsegment_header *h = dbmemsegh(db);
  gint need = std::max((gint)MINIMAL_SUBAREA_SIZE, bytes + 8 + SUBAREA_ALIGNMENT_BYTES + 4 * MIN_VARLENOBJ_SIZE), part = MINIMAL_SUBAREA_SIZE;
  while (part < need && part < ((gint)1 << 60)) part *= 2;         /* an area grows by 8192 times a power of two */
  need = part + 64;
  if (a >= 0) return area(db, a)->last_subarea_index + 1 >= SUBAREA_ARRAY_SIZE || h->size - h->free < need;
  for (int i = 0; i < NAREA; i++) if (area(db, i)->last_subarea_index + 1 >= SUBAREA_ARRAY_SIZE) return true;
  return h->size - h->free < need;
}
static std::string placed(char *db, int a, gint off, gint size) {
  db_area_header *h = area(db, a);
  bool in = false;
  for (gint i = 0; i <= h->last_subarea_index; i++) if (off >= h->subarea_array[i].alignedoffset && off + size <= h->subarea_array[i].offset + h->subarea_array[i].size) in = true;
  std::string w = " (" + std::to_string(size) + " bytes at " + std::to_string(off) + ", area " + std::to_string(a) + ")";
  if (!in) return "outside: an object is put outside the parts of its area" + w;
  if (off + size > dbmemsegh(db)->size) return "outside: an object is put outside the segment" + w;
  if (off % 8) return "outside: an object is not aligned" + w;
  auto it = live.lower_bound(off);
  if (it != live.end() && it->first < off + size) return "overlap: a new object overlaps the live one at " + std::to_string(it->first) + w;
  if (it != live.begin()) { --it; if (it->first + it->second.size > off) return "overlap: a new object overlaps the live one at " + std::to_string(it->first) + w; }
  return "";
}
/* 0 refused, else the offset; w set on a violation */
static gint alloc(char *db, int a, gint n, Rng &r, std::string &w, gint max_free = -1) {
  gint size = var(a) ? n * (gint)sizeof(gint) : fixlen(db, a);
  gint before = dbmemsegh(db)->free;
  bool t = tight(db, a, size);
  gint off = var(a) ? wg_alloc_gints(db, area(db, a), n) : wg_alloc_fixlen_object(db, area(db, a));
  if (!off) {
    G.counters["refused"]++; S.faults["segment_full"]++;
    if (!t) w = "refused: " + std::to_string(size) + " bytes in area " + std::to_string(a) + " with " + std::to_string(dbmemsegh(db)->size - dbmemsegh(db)->free) + " bytes of the segment unused";
    return 0;
  }
  if (max_free >= 0 && dbmemsegh(db)->free > max_free) { w = "not reused: " + std::to_string(size) + " bytes just freed in area " + std::to_string(a) + " are not used again"; return 0; }
  if (dbmemsegh(db)->free != before) G.counters["extended"]++;
  w = placed(db, a, off, size);
  if (!w.empty()) return 0;
  Obj o{a, size, r.next()};
  live[off] = o;
  order[a].push_back(off);
  fill(db, off, o);
  G.counters["allocated"]++;
  return off;
}
static std::string dofree(char *db, int a, size_t idx) {
  gint off = order[a][idx];
  Obj o = live[off];
  std::string w = intact(db, off, o);
  if (!w.empty()) return w;
  order[a][idx] = order[a].back(); order[a].pop_back();
  live.erase(off);
  if (var(a)) { gint x = wg_free_object(db, area(db, a), off); if (x) return "wrong result: freeing " + std::to_string(o.size) + " bytes at " + std::to_string(off) + " in area " + std::to_string(a) + " returns " + std::to_string(x); }
  else if (a == 4) wg_free_listcell(db, off);
  else if (a == 5) wg_free_shortstr(db, off);
  else if (a == 6) wg_free_word(db, off);
  else if (a == 7) wg_free_doubleword(db, off);
  else wg_free_tnode(db, off);
  G.counters["freed"]++;
  return "";
}
static std::string all_intact(char *db, bool scan) {
  for (auto &x : live) { std::string w = intact(db, x.first, x.second); if (!w.empty()) return w; }
  if (scan) return diff_scan(db, M, true);
  for (auto &x : M.recs) { std::string w = diff_rec(db, x.second, M); if (!w.empty()) return w; }
  return "";
}

static gint pick_size(Rng &r, int style) {
  switch (style) {
    case 0: return r.range(1, 12);
    case 1: return r.range(1, 40);
    case 2: return r.pick(std::vector<i64>{30, 31, 32, 33, 34, 35, 36, 40, 48, 64, 65});     /* around the exact buckets' end */
    case 3: return r.chance(0.9) ? r.range(1, 60) : r.range(60, 2000);
    case 4: return r.range(100, 1200);
  }
  return r.chance(0.5) ? r.range(1, 8) : (gint)1 << r.range(0, 11);
}
/* op: {kind, seed, n, think}: 0 mixed allocations and frees 1 free then allocate the same size 2 fill and drain twice
 * 3 records with values 4 fill the segment with anything 5 free most 6 odd requests */
static void txn(char *db, const std::vector<i64> &op, const Program &p) {
  Rng r((u64)op[1] * 0x9E3779B97F4A7C15ull + 9);
  std::vector<int> as;
  for (int i = 0; i < NAREA; i++) if (p.get("areas") >> i & 1) as.push_back(i);
  int style = p.get("style");
  bool direct0 = p.get("areas") & 1;
  std::string w;
  auto any_obj = [&](int &a) { for (int k = 0; k < 6; k++) { a = as[r.below(as.size())]; if (!order[a].empty()) return true; } return false; };
  switch (op[0]) {
    case 0:
      for (i64 k = 0; k < op[2] && w.empty(); k++) {
        int a;
        if (r.chance(p.get("pfree") / 100.0)) { if (any_obj(a)) w = dofree(db, a, r.chance(0.5) ? r.below(order[a].size()) : order[a].size() - 1); }
        else { a = as[r.below(as.size())]; alloc(db, a, pick_size(r, style), r, w); }
      }
      break;
    case 1:
      for (i64 k = 0; k < op[2] && w.empty(); k++) {
        int a;
        if (!any_obj(a)) break;
        size_t i = r.below(order[a].size());
        gint size = live[order[a][i]].size;
        w = dofree(db, a, i);
        if (w.empty() && !alloc(db, a, size / 8, r, w, dbmemsegh(db)->free) && w.empty()) w = "not reused: " + std::to_string(size) + " bytes just freed in area " + std::to_string(a) + " cannot be allocated again";
      }
      break;
    case 2: {
      int a = as[r.below(as.size())];
      gint n = pick_size(r, style);
      std::vector<size_t> got;
      size_t keep = order[a].size();
      for (int round = 0; round < 3 && w.empty(); round++) {
        size_t c = 0;
        while (w.empty() && c < 30000 && alloc(db, a, n, r, w)) c++;
        got.push_back(c);
        if (!w.empty() || c == 30000) break;
        if (round == 0) w = all_intact(db, !direct0);
        /* free what this round made, in some order */
        int mode = r.below(3);
        while (w.empty() && order[a].size() > keep) {
          size_t cnt = order[a].size() - keep;
          size_t i = mode == 0 ? order[a].size() - 1 : mode == 1 ? keep : keep + r.below(cnt);
          w = dofree(db, a, i);
        }
      }
      G.counters["fill_cycles"]++;
      if (w.empty()) for (size_t k = 1; k < got.size(); k++) {
        if (got[k] * 10 + 30 < got[0] * 9) w = "capacity lost: area " + std::to_string(a) + " held " + std::to_string(got[0]) + " objects of " + std::to_string(n) + " words, after freeing them only " + std::to_string(got[k]);
      }
      break;
    }
    case 3:
      for (i64 k = 0; k < op[2] && w.empty(); k++) {
        if (r.chance(p.get("pfree") / 100.0)) { int id = M.any(r); if (id >= 0 && M.recs[id].refs == 0) w = do_delete(db, M, id); continue; }
        std::vector<Val> vs;
        gint bytes = 0;
        for (int n = r.below(6); n > 0; n--) { vs.push_back(rand_val(r, M, 0, p.get("maxlen"))); bytes = std::max(bytes, (gint)(vs.back().s.size() + vs.back().x.size()) + 200); }
        int id = do_create(db, M, vs, r.chance(0.3), w);
        if (id < 0) {
          G.counters["record_refused"]++;
          if (w.empty() && !tight(db, -1, bytes)) w = "refused: a record or value with " + std::to_string(dbmemsegh(db)->size - dbmemsegh(db)->free) + " bytes of the segment unused";
        }
        if (w.empty() && r.chance(0.1) && !M.recs.empty()) w = diff_rec(db, M.recs.rbegin()->second, M);
        G.counters["records"]++;
      }
      break;
    case 4: {
      int refused = 0;
      for (int k = 0; k < 20000 && refused < 12 && w.empty(); k++) {
        int a = as[r.below(as.size())];
        gint n = refused > 6 ? 1 : pick_size(r, style);
        if (!alloc(db, a, n, r, w)) refused++;
      }
      G.counters["filled"]++;
      if (w.empty()) w = all_intact(db, !direct0);
      break;
    }
    case 5:
      for (int a : as) while (w.empty() && order[a].size() > (size_t)op[2] / 4) w = dofree(db, a, r.below(order[a].size()));
      break;
    case 6: {
      /* requests that can never be met */
      int a = r.below(4);
      gint n = r.pick(std::vector<i64>{dbmemsegh(db)->size / 8, dbmemsegh(db)->size, 1ll << 40, (1ll << 60) - 1, INT64_MAX / 8 - 2, INT64_MAX / 8, -1, -100, INT64_MIN / 8});
      gint off = wg_alloc_gints(db, area(db, a), n);
      if (off) w = "granted: " + std::to_string(n) + " words in a segment of " + std::to_string(dbmemsegh(db)->size) + " bytes";
      G.counters["impossible"]++;
      break;
    }
  }
  if (!w.empty()) S.fail(w);
}
static void client(int c, const Program &p, char *db) {
  for (auto &op : p.ops[c]) {
    if (S.failed) return;
    if (op[3]) S.sleep_ns(op[3]);
    gint l = wg_start_write(db);
    if (!l) continue;
    S.ev("client %d op %lld", c, (long long)op[0]);
    txn(db, op, p);
    if (!S.failed && op[1] % 4 == 0) { std::string w = all_intact(db, !(p.get("areas") & 1)); if (!w.empty()) S.fail(w); }
    wg_end_write(db, l);
  }
}
static const i64 SIZES[] = {156000, 180000, 200000, 260000, 400000, 800000, 3000000};
static Program gen(u64 seed) {
  Rng r(seed * 0x9E3779B1u + 13);
  Program p;
  int nc = r.chance(0.6) ? 1 : r.range(2, 3);
  p.cfg["clients"] = nc;
  p.cfg["size"] = SIZES[r.below(r.chance(0.1) ? 7 : 6)];
  i64 m = 0;
  int k = r.chance(0.4) ? 1 : r.range(2, 5);
  for (int i = 0; i < k; i++) m |= 1 << (r.chance(0.6) ? r.below(4) : r.below(NAREA));
  p.cfg["areas"] = m;
  p.cfg["style"] = r.below(6);
  p.cfg["pfree"] = r.pick(std::vector<i64>{5, 20, 40, 48, 60});
  p.cfg["maxlen"] = r.pick(std::vector<i64>{40, 200, 3000});
  for (int c = 0; c < nc; c++) p.cfg["cost" + std::to_string(c)] = 1;
  p.ops.resize(nc);
  int total = r.range(2, r.chance(0.2) ? 40 : 10);
  std::vector<double> w = {4.0, 1.0 + r.below(3), r.chance(0.5) ? 0.5 : 0, r.chance(0.5) ? 2.0 : 0, r.chance(0.5) ? 0.5 : 0.0, r.chance(0.5) ? 0.5 : 0.0, 0.2};
  double tw = 0; for (double x : w) tw += x;
  int big = r.chance(0.5) ? 400 : 60;
  for (int i = 0; i < total; i++) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * tw;
    int kk = 0; while (kk < 6 && x >= w[kk]) { x -= w[kk]; kk++; }
    p.ops[r.below(nc)].push_back({kk, (i64)r.below(1u << 30), r.range(1, big), r.chance(0.3) ? (i64)r.below(5000) : 0});
  }
  return p;
}
static std::string exec(const Program &p, u64 seed, const std::vector<Dec> *rep) {
  Seg &sg = segment(p.get("size"));
  sg.reset();
  int nc = p.get("clients");
  S.reset(seed, nc);
  M.clear(); live.clear();
  for (auto &o : order) o.clear();
  Rng r(seed * 0x9E3779B97F4A7C15ull + 7);
  S.pol = draw_policy(r, p);
  S.pol.p_plain = r.pick(std::vector<double>{0, 0, 0.0005});
  S.pol.pct_len = 1000 + r.below(100000);
  if (rep) S.load(*rep);
  S.max_steps = 200000000;
  for (int c = 0; c < nc; c++) S.f[c].body = [c, &p, &sg]() { client(c, p, sg.map[c]); };
  S.run();
  fold_stats();
  if (S.failed) return S.failure;
  if (S.clipped || S.deadlock) return "hang: the clients do not end";
  std::string w = all_intact(sg.map[nc % SEG_CLIENTS], !(p.get("areas") & 1));
  if (!w.empty()) return w + " (at the end)";
  G.states.insert((u64)live.size() * 1000003 + M.next);
  return "";
}
void reg_alloc() { checks.push_back({"D04", gen, exec}); }
