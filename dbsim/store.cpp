#include "store.h"
#include <cmath>
#include <algorithm>

static const int LENS[] = {0, 1, 6, 7, 8, 9, 15, 16, 30, 31, 32, 33, 39, 40, 41, 63, 64, 100, 200, 201, 1000, 3000, 20000};
static std::string rand_text(Rng &r, int maxlen, bool bin) {
  int n;
  do { n = r.chance(0.7) ? LENS[r.below(sizeof LENS / sizeof *LENS)] : (int)r.below(120); } while (n > maxlen);
  if (n > 300 && !r.chance(0.15)) n = (int)r.below(120) % (maxlen + 1);
  std::string s;
  int mode = r.below(3);
  for (int i = 0; i < n; i++) s += bin ? (char)r.below(256) : mode == 0 ? (char)('a' + r.below(26)) : mode == 1 ? (char)('a' + (i % 3 == 2 ? r.below(2) : 0)) : (char)(1 + r.below(255));
  return s;
}
std::string Val::show() const {
  char b[200];
  snprintf(b, sizeof b, "type %d int %lld num %.17g text %zu '%.20s' ext %s '%.20s' rec %d", t, (long long)i, d, s.size(), s.c_str(), hx ? "yes" : "no", x.c_str(), rec);
  for (char *p = b; *p; p++) if ((unsigned char)*p < 32 || (unsigned char)*p > 126) *p = '?';
  return b;
}
int Model::any(Rng &r) const {
  if (recs.empty()) return -1;
  auto it = recs.lower_bound((int)r.below(next));
  if (it == recs.end()) it = recs.begin();
  return it->first;
}
/* kinds: 0 everything, 1 numbers mostly, 2 strings mostly */
Val rand_val(Rng &r, Model &m, int kinds, int maxlen) {
  Val v;
  static const int all[] = {WG_NULLTYPE, WG_INTTYPE, WG_INTTYPE, WG_INTTYPE, WG_DOUBLETYPE, WG_DOUBLETYPE, WG_STRTYPE, WG_STRTYPE, WG_STRTYPE, WG_XMLLITERALTYPE, WG_URITYPE, WG_URITYPE,
                            WG_BLOBTYPE, WG_CHARTYPE, WG_FIXPOINTTYPE, WG_DATETYPE, WG_TIMETYPE, WG_VARTYPE, WG_RECORDTYPE};
  static const int nums[] = {WG_INTTYPE, WG_INTTYPE, WG_DOUBLETYPE, WG_NULLTYPE, WG_DATETYPE};
  static const int strs[] = {WG_STRTYPE, WG_STRTYPE, WG_URITYPE, WG_BLOBTYPE, WG_XMLLITERALTYPE};
  v.t = kinds == 1 ? nums[r.below(5)] : kinds == 2 ? strs[r.below(5)] : all[r.below(sizeof all / sizeof *all)];
  auto text = [&](bool bin) {
    if (!m.pool.empty() && r.chance(0.5)) { std::string s = m.pool[r.below(m.pool.size())]; if ((int)s.size() <= maxlen) { if (!bin) s = s.substr(0, s.find('\0')); return s; } }
    std::string s = rand_text(r, maxlen, bin);
    if (m.pool.size() < 24) m.pool.push_back(s); else if (r.chance(0.2)) m.pool[r.below(24)] = s;
    return s;
  };
  auto extra = [&](double p) { if (r.chance(p)) { v.hx = true; v.x = r.chance(0.5) ? std::string(r.chance(0.5) ? "en" : "et") : text(false); if (v.x.empty()) v.x = "x"; } };
  switch (v.t) {
    case WG_INTTYPE:
      switch (r.below(6)) {
        case 0: v.i = r.range(-5, 5); break;
        case 1: v.i = r.range(-1000000, 1000000); break;
        case 2: v.i = ((i64)1 << r.range(20, 62)) + r.range(-2, 2); break;
        case 3: v.i = -((i64)1 << r.range(20, 62)) + r.range(-2, 2); break;
        case 4: v.i = r.chance(0.5) ? INT64_MAX - r.range(0, 2) : INT64_MIN + r.range(0, 2); break;
        default: v.i = (i64)r.next(); break;
      }
      break;
    case WG_DOUBLETYPE: {
      static const double ds[] = {0.0, -0.0, 1.0, -1.5, 1e300, -1e300, 5e-324, 3.141592653589793, 0.1, 1e18, INFINITY, -INFINITY};
      v.d = r.chance(0.6) ? ds[r.below(12)] : ((double)(i64)r.next()) / 1024.0;
      break;
    }
    case WG_STRTYPE: v.s = text(false); extra(0.3); break;
    case WG_XMLLITERALTYPE: v.s = text(false); extra(1.0); break;
    case WG_URITYPE: v.s = text(false); extra(0.5); break;
    case WG_BLOBTYPE: v.s = text(true); extra(0.4); break;
    case WG_CHARTYPE: v.i = r.range(-128, 127); break;
    case WG_FIXPOINTTYPE: v.d = r.range(-8000000, 8000000) / 10000.0; break;
    case WG_DATETYPE: v.i = r.chance(0.2) ? 1 : r.range(1, 3652059); break;
    case WG_TIMETYPE: v.i = r.chance(0.2) ? r.pick(std::vector<i64>{0, 8639999}) : r.range(0, 8639999); break;
    case WG_ANONCONSTTYPE: v.s = text(false); break;
    case WG_VARTYPE: v.i = r.chance(0.5) ? r.range(0, 20) : r.range(0, 1 << 20); break;
    case WG_RECORDTYPE: v.rec = m.any(r); if (v.rec < 0) v.t = WG_NULLTYPE; break;
  }
  return v;
}
static char *cs(const std::string &s) { return (char *)s.c_str(); }
gint enc_val(char *db, const Val &v, const Model &m) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_null(db, nullptr);
    case WG_INTTYPE: return wg_encode_int(db, v.i);
    case WG_DOUBLETYPE: return wg_encode_double(db, v.d);
    case WG_STRTYPE: return wg_encode_str(db, cs(v.s), v.hx ? cs(v.x) : nullptr);
    case WG_XMLLITERALTYPE: return wg_encode_xmlliteral(db, cs(v.s), cs(v.x));
    case WG_URITYPE: return wg_encode_uri(db, cs(v.s), v.hx ? cs(v.x) : nullptr);
    case WG_BLOBTYPE: return wg_encode_blob(db, cs(v.s), v.hx ? cs(v.x) : nullptr, v.s.size());
    case WG_CHARTYPE: return wg_encode_char(db, (char)v.i);
    case WG_FIXPOINTTYPE: return wg_encode_fixpoint(db, v.d);
    case WG_DATETYPE: return wg_encode_date(db, (int)v.i);
    case WG_TIMETYPE: return wg_encode_time(db, (int)v.i);
    case WG_ANONCONSTTYPE: return wg_encode_anonconst(db, cs(v.s));
    case WG_VARTYPE: return wg_encode_var(db, v.i);
    case WG_RECORDTYPE: return wg_encode_record(db, db + m.recs.at(v.rec).off);
  }
  return WG_ILLEGAL;
}
static bool eqs(const char *p, const std::string &s) { return p && std::string(p) == s; }
std::string diff_val(char *db, gint e, const Val &v, const Model &m) {
  int t = wg_get_encoded_type(db, e);
  auto bad = [&](const std::string &w) { return "wrong value: " + w + " for " + v.show(); };
  if (t != v.t) return bad("type is " + std::to_string(t));
  std::vector<char> buf(v.s.size() + v.x.size() + 64);
  switch (v.t) {
    case WG_NULLTYPE: return e == 0 ? "" : bad("not 0");
    case WG_INTTYPE: return wg_decode_int(db, e) == v.i ? "" : bad("int " + std::to_string(wg_decode_int(db, e)));
    case WG_DOUBLETYPE: { double d = wg_decode_double(db, e); return memcmp(&d, &v.d, 8) == 0 ? "" : bad("double"); }
    case WG_STRTYPE: {
      if (!eqs(wg_decode_str(db, e), v.s)) return bad("text");
      if (wg_decode_str_len(db, e) != (gint)v.s.size()) return bad("length " + std::to_string(wg_decode_str_len(db, e)));
      if (wg_decode_str_copy(db, e, buf.data(), v.s.size() + 1) != (gint)v.s.size() || !eqs(buf.data(), v.s)) return bad("copied text");
      char *l = wg_decode_str_lang(db, e);
      if (v.hx ? !eqs(l, v.x) : l != nullptr) return bad("language");
      if (v.hx && (wg_decode_str_lang_len(db, e) != (gint)v.x.size() || wg_decode_str_lang_copy(db, e, buf.data(), v.x.size() + 1) != (gint)v.x.size() || !eqs(buf.data(), v.x))) return bad("copied language");
      return "";
    }
    case WG_XMLLITERALTYPE: {
      if (!eqs(wg_decode_xmlliteral(db, e), v.s) || wg_decode_xmlliteral_len(db, e) != (gint)v.s.size()) return bad("text");
      if (wg_decode_xmlliteral_copy(db, e, buf.data(), v.s.size() + 1) != (gint)v.s.size() || !eqs(buf.data(), v.s)) return bad("copied text");
      if (!eqs(wg_decode_xmlliteral_xsdtype(db, e), v.x) || wg_decode_xmlliteral_xsdtype_len(db, e) != (gint)v.x.size()) return bad("xsd type");
      return "";
    }
    case WG_URITYPE: {
      if (!eqs(wg_decode_uri(db, e), v.s) || wg_decode_uri_len(db, e) != (gint)v.s.size()) return bad("text");
      if (wg_decode_uri_copy(db, e, buf.data(), v.s.size() + 1) != (gint)v.s.size() || !eqs(buf.data(), v.s)) return bad("copied text");
      char *l = wg_decode_uri_prefix(db, e);
      if (v.hx ? !eqs(l, v.x) : l != nullptr) return bad("prefix");
      if (v.hx && (wg_decode_uri_prefix_len(db, e) != (gint)v.x.size() || wg_decode_uri_prefix_copy(db, e, buf.data(), v.x.size() + 1) != (gint)v.x.size() || !eqs(buf.data(), v.x))) return bad("copied prefix");
      return "";
    }
    case WG_BLOBTYPE: {
      if (wg_decode_blob_len(db, e) != (gint)v.s.size()) return bad("blob length " + std::to_string(wg_decode_blob_len(db, e)));
      char *p = wg_decode_blob(db, e);
      if (!p || memcmp(p, v.s.data(), v.s.size())) return bad("blob");
      if (v.s.size() && (wg_decode_blob_copy(db, e, buf.data(), v.s.size()) != (gint)v.s.size() || memcmp(buf.data(), v.s.data(), v.s.size()))) return bad("copied blob");
      char *l = wg_decode_blob_type(db, e);
      if (v.hx ? !eqs(l, v.x) : l != nullptr) return bad("blob type");
      return "";
    }
    case WG_CHARTYPE: return wg_decode_char(db, e) == (char)v.i ? "" : bad("char");
    case WG_FIXPOINTTYPE: return std::fabs(wg_decode_fixpoint(db, e) - v.d) < 1e-9 ? "" : bad("fixpoint " + std::to_string(wg_decode_fixpoint(db, e)));
    case WG_DATETYPE: return wg_decode_date(db, e) == (int)v.i ? "" : bad("date " + std::to_string(wg_decode_date(db, e)));
    case WG_TIMETYPE: return wg_decode_time(db, e) == (int)v.i ? "" : bad("time " + std::to_string(wg_decode_time(db, e)));
    case WG_ANONCONSTTYPE: return eqs(wg_decode_anonconst(db, e), v.s) ? "" : bad("anonconst");
    case WG_VARTYPE: return wg_decode_var(db, e) == v.i ? "" : bad("var " + std::to_string(wg_decode_var(db, e)));
    case WG_RECORDTYPE: { auto it = m.recs.find(v.rec); return it != m.recs.end() && wg_decode_record(db, e) == db + it->second.off ? "" : bad("record"); }
  }
  return "";
}
std::string diff_rec(char *db, const MRec &r, const Model &m) {
  void *p = db + r.off;
  if (wg_get_record_len(db, p) != (gint)r.v.size()) return "wrong record: record " + std::to_string(r.id) + " has length " + std::to_string(wg_get_record_len(db, p)) + ", not " + std::to_string(r.v.size());
  for (size_t i = 0; i < r.v.size(); i++) {
    gint e = wg_get_field(db, p, i);
    std::string d = diff_val(db, e, r.v[i], m);
    if (!d.empty()) return d + " (record " + std::to_string(r.id) + " field " + std::to_string(i) + ")";
    if (wg_get_field_type(db, p, i) != r.v[i].t) return "wrong value: field type";
  }
  return "";
}
std::string diff_scan(char *db, const Model &m, bool contents) {
  std::map<gint, int> at;
  for (auto &x : m.recs) at[x.second.off] = x.first;
  for (int raw = 0; raw < 2; raw++) {
    std::set<gint> seen;
    void *p = raw ? wg_get_first_raw_record(db) : wg_get_first_record(db);
    size_t n = 0;
    while (p) {
      gint off = (char *)p - db;
      if (!at.count(off)) return "scan: a record at " + std::to_string(off) + " that is not there";
      if (!seen.insert(off).second) return "scan: record " + std::to_string(at[off]) + " twice";
      if (++n > at.size()) return "scan: too many records";
      p = raw ? wg_get_next_raw_record(db, p) : wg_get_next_record(db, p);
    }
    if (seen.size() != at.size()) {
      for (auto &x : at) if (!seen.count(x.first)) return "scan: record " + std::to_string(x.second) + " of " + std::to_string(at.size()) + " is missing";
    }
  }
  if (contents) for (auto &x : m.recs) { std::string d = diff_rec(db, x.second, m); if (!d.empty()) return d; }
  return "";
}
int do_create(char *db, Model &m, const std::vector<Val> &vals, bool raw, std::string &err) {
  err.clear();
  void *p = raw ? wg_create_raw_record(db, vals.size()) : wg_create_record(db, vals.size());
  if (!p) return -1;
  MRec r;
  r.id = m.next; r.off = (char *)p - db; r.raw = raw;
  bool full = false;
  for (auto &v : vals) {
    gint e = full ? 0 : enc_val(db, v, m);
    if (e == WG_ILLEGAL) { full = true; e = 0; }
    r.enc.push_back(e);
    r.v.push_back(v);
    if (full) r.v.back() = Val();
    /* null fields of a record made by wg_create_record need no setting */
    if (e == 0 && !raw) continue;
    gint x = wg_set_new_field(db, p, r.v.size() - 1, e);
    if (x) { err = "wrong result: wg_set_new_field returns " + std::to_string(x); return -1; }
  }
  for (auto &o : m.recs) if (o.second.off == r.off) { err = "overlap: a new record is put where record " + std::to_string(o.first) + " is"; return -1; }
  for (auto &v : r.v) if (v.t == WG_RECORDTYPE) m.recs[v.rec].refs++;
  m.next++;
  m.recs[r.id] = r;
  return full ? -2 - r.id : r.id;
}
std::string do_delete(char *db, Model &m, int id) {
  MRec r = m.recs[id];
  gint x = wg_delete_record(db, db + r.off);
  if (x) return "wrong result: deleting record " + std::to_string(id) + " returns " + std::to_string(x);
  for (auto &v : r.v) if (v.t == WG_RECORDTYPE && m.recs.count(v.rec)) m.recs[v.rec].refs--;
  m.recs.erase(id);
  return "";
}

/* ---------------- D02: clients under the locks against the model ---------------- */
/* op: {kind 0 write 1 scan 2 look at a few, seed, n, think ns, hold ns} */
static Model M;
void txn_write(char *db, Model &M, const std::vector<i64> &op, const Program &p, int c) {
  Rng r((u64)op[1] * 0x9E3779B97F4A7C15ull + 3);
  int kinds = p.get("kinds"), maxlen = p.get("maxlen", 200);
  double pdel = p.get("pdel", 30) / 100.0;
  for (i64 k = 0; k < op[2] && !S.failed; k++) {
    std::string w;
    bool room = dbmemsegh(db)->size - dbmemsegh(db)->free > 900000;
    if (r.chance(pdel) || !room) {
      int id = M.any(r);
      if (id >= 0 && M.recs[id].refs == 0) { w = do_delete(db, M, id); S.ev("client %d deletes %d (%lld)", c, id, 0LL); G.counters["deleted"]++; }
    } else if (r.chance(0.15)) {
      Val v = rand_val(r, M, kinds, maxlen);
      gint e = enc_val(db, v, M);
      if (e == WG_ILLEGAL) w = "refused: encoding in a segment with much room fails for " + v.show();
      else { w = diff_val(db, e, v, M); if (w.empty() && r.chance(0.7)) wg_free_encoded(db, e); }
      G.counters["encoded"]++;
    } else {
      int n = r.chance(0.02) ? r.below(600) : r.below(r.chance(0.3) ? 11 : 5);
      std::vector<Val> vs;
      for (int i = 0; i < n; i++) vs.push_back(i >= 12 ? Val() : rand_val(r, M, kinds, maxlen));
      int id = do_create(db, M, vs, r.chance(0.3), w);
      if (id < 0 && w.empty()) w = "refused: creating a record in a segment with much room fails";
      S.ev("client %d creates %d of %d at %lld", c, id, n, id >= 0 ? (long long)M.recs[id].off : 0);
      if (id >= 0 && r.chance(0.2)) w = diff_rec(db, M.recs[id], M);
      G.counters["created"]++;
    }
    if (!w.empty()) { S.fail(w); return; }
  }
}
static void client(int c, const Program &p, char *db) {
  for (auto &op : p.ops[c]) {
    if (S.failed) return;
    if (op[3]) S.sleep_ns(op[3]);
    int k = op[0];
    gint l = k == 0 ? wg_start_write(db) : wg_start_read(db);
    if (!l) { G.counters["no_lock"]++; S.ev("client %d gets no lock", c); continue; }
    std::string w;
    if (k == 0) { txn_write(db, M, op, p, c); G.counters["write_txn"]++; }
    else if (k == 1) { w = diff_scan(db, M, true); G.counters["scans"]++; S.ev("client %d scans %zu", c, M.recs.size()); }
    else {
      Rng r(op[1]);
      for (i64 j = 0; j < op[2] && w.empty(); j++) { int id = M.any(r); if (id >= 0) w = diff_rec(db, M.recs[id], M); }
      G.counters["looks"]++;
    }
    if (!w.empty()) { S.fail(w + " (client " + std::to_string(c) + ")"); return; }
    if (op[4]) S.sleep_ns(op[4]);
    gint e = k == 0 ? wg_end_write(db, l) : wg_end_read(db, l);
    if (!e) { S.fail("wrong result: releasing the lock fails"); return; }
  }
}
static Program gen(u64 seed) {
  Rng r(seed * 0x9E3779B1u + 11);
  Program p;
  int nc = r.chance(0.3) ? 1 : r.range(2, 5);
  p.cfg["clients"] = nc;
  p.cfg["kinds"] = r.pick(std::vector<i64>{0, 0, 0, 1, 2});
  p.cfg["maxlen"] = r.pick(std::vector<i64>{8, 40, 200, 200, 3000, 20000});
  p.cfg["pdel"] = r.pick(std::vector<i64>{0, 20, 40, 60});
  for (int c = 0; c < nc; c++) p.cfg["cost" + std::to_string(c)] = r.pick(std::vector<i64>{1, 5, 20});
  p.ops.resize(nc);
  int total = r.range(2, r.chance(0.2) ? 30 : 10);
  int big = r.chance(0.2) ? 60 : 12;
  for (int i = 0; i < total; i++) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    int k = x < 0.6 ? 0 : x < 0.85 ? 1 : 2;
    p.ops[r.below(nc)].push_back({k, (i64)r.below(1u << 30), r.range(1, big), r.chance(0.4) ? (i64)r.below(20000) : 0, r.chance(0.2) ? (i64)r.below(20000) : 0});
  }
  return p;
}
static std::string exec(const Program &p, u64 seed, const std::vector<Dec> *rep) {
  Seg &sg = segment(2000000);
  sg.reset();
  int nc = p.get("clients");
  S.reset(seed, nc);
  M.clear();
  Rng r(seed * 0x9E3779B97F4A7C15ull + 7);
  S.pol = draw_policy(r, p);
  if (r.chance(0.5)) S.pol.p_plain = r.pick(std::vector<double>{0.02, 0.005, 0.001});
  S.pol.pct_len = 1000 + r.below(100000);
  S.pol.p_stall = r.pick(std::vector<double>{0, 0, 0.1});
  S.pol.stall_max = r.pick(std::vector<i64>{1000, 100000});
  if (rep) S.load(*rep);
  S.max_steps = 50000000;
  for (int c = 0; c < nc; c++) S.f[c].body = [c, &p, &sg]() { client(c, p, sg.map[c]); };
  S.run();
  fold_stats();
  if (S.failed) return S.failure;
  if (S.clipped || S.deadlock) return "hang: the clients do not end";
  std::string w = diff_scan(sg.map[nc % SEG_CLIENTS], M, true);
  if (!w.empty()) return w + " (at the end)";
  G.states.insert((u64)M.recs.size() * 1000003 + M.next);
  return "";
}
void reg_store() { checks.push_back({"D02", gen, exec}); }
