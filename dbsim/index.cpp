/* D03: indexes and queries against a plain scan of the model. */
#include "store.h"
#include <algorithm>

static Model M;
struct Idx { gint id; int type; std::vector<gint> cols; std::vector<Val> tmpl; /* WG_VARTYPE: any */ };
static std::vector<Idx> idx;
static std::vector<Val> pool;
static int COLS, KINDS; static bool closed;   /* closed: an index add failed, the documentation makes no promise after it */

static int cmp3(int x) { return x < 0 ? -1 : x > 0; }
template <class T> static int cmpt(T a, T b) { return a < b ? -1 : b < a; }
static int cmpv(const Val &a, const Val &b) {
  if (a.t != b.t) return cmpt(a.t, b.t);
  switch (a.t) {
    case WG_NULLTYPE: return 0;
    case WG_INTTYPE: case WG_DATETYPE: case WG_TIMETYPE: case WG_VARTYPE: return cmpt(a.i, b.i);
    case WG_DOUBLETYPE: case WG_FIXPOINTTYPE: return cmpt(a.d, b.d);
    case WG_CHARTYPE: return cmpt((int)(unsigned char)a.i, (int)(unsigned char)b.i);
    case WG_STRTYPE: return cmp3(strcmp(a.s.c_str(), b.s.c_str()));
    case WG_URITYPE: case WG_XMLLITERALTYPE: {
      if (a.hx != b.hx) return a.hx ? 1 : -1;
      int x = a.hx ? strcmp(a.x.c_str(), b.x.c_str()) : 0;
      return x ? cmp3(x) : cmp3(strcmp(a.s.c_str(), b.s.c_str()));
    }
    case WG_BLOBTYPE: { int x = memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size())); return x ? cmp3(x) : cmpt(a.s.size(), b.s.size()); }
  }
  return 0;
}
static bool holds(const Val &a, int cond, const Val &b) {
  int c = cmpv(a, b);
  switch (cond) {
    case WG_COND_EQUAL: return c == 0;
    case WG_COND_NOT_EQUAL: return c != 0;
    case WG_COND_LESSTHAN: return c < 0;
    case WG_COND_GREATER: return c > 0;
    case WG_COND_LTEQUAL: return c <= 0;
    case WG_COND_GTEQUAL: return c >= 0;
  }
  return true;
}
struct Arg { int col, cond; Val v; };
static bool match(const MRec &r, const std::vector<Arg> &as) {
  for (auto &a : as) if (a.col >= (int)r.v.size() || !holds(r.v[a.col], a.cond, a.v)) return false;
  return true;
}
static bool tmatch(const MRec &r, const std::vector<Val> &t) {
  for (size_t i = 0; i < t.size(); i++) if (t[i].t != WG_VARTYPE && (i >= r.v.size() || cmpv(r.v[i], t[i]))) return false;
  return true;
}
static Val fresh(Rng &r) {
  Val v;
  static const int mix[] = {WG_NULLTYPE, WG_INTTYPE, WG_INTTYPE, WG_DOUBLETYPE, WG_STRTYPE, WG_STRTYPE, WG_URITYPE, WG_XMLLITERALTYPE, WG_CHARTYPE, WG_FIXPOINTTYPE, WG_DATETYPE, WG_TIMETYPE, WG_BLOBTYPE};
  v.t = KINDS == 1 ? WG_INTTYPE : KINDS == 2 ? WG_STRTYPE : mix[r.below(KINDS == 3 ? 13 : 12)];
  auto text = [&]() { std::string s; int n = r.chance(0.2) ? 30 + r.below(60) : r.below(5); for (int i = 0; i < n; i++) s += (char)(r.chance(0.9) ? 'a' + r.below(2) : 1 + r.below(255)); return s; };
  auto ext = [&]() { v.hx = true; v.x = r.pick(std::vector<std::string>{"a", "ab", "b", "en"}); };
  switch (v.t) {
    case WG_INTTYPE: v.i = r.chance(0.7) ? r.range(-20, 20) : r.chance(0.5) ? r.range(-3, 3) + ((i64)1 << r.range(28, 45)) : r.range(-3, 3) - ((i64)1 << r.range(28, 62)); break;
    case WG_DOUBLETYPE: v.d = r.pick(std::vector<double>{0.0, 1.0, -1.5, 1e300, -1e300, 0.1, 3.25, INFINITY, -INFINITY, 5e-324}); break;
    case WG_FIXPOINTTYPE: v.d = r.range(-30, 30) / 10.0; break;
    case WG_STRTYPE: v.s = text(); if (r.chance(0.2)) ext(); break;
    case WG_URITYPE: v.s = text(); if (r.chance(0.5)) ext(); break;
    case WG_XMLLITERALTYPE: v.s = text(); ext(); break;
    case WG_BLOBTYPE: { int n = 1 + r.below(r.chance(0.2) ? 60 : 4); for (int i = 0; i < n; i++) v.s += (char)r.below(3); break; }
    case WG_CHARTYPE: v.i = r.chance(0.8) ? 'a' + r.below(4) : 1 + r.below(127); break;
    case WG_DATETYPE: v.i = r.range(1, 40) * (r.chance(0.3) ? 10000 : 1); break;
    case WG_TIMETYPE: v.i = r.range(0, 40); break;
  }
  return v;
}
static Val some(Rng &r) { return r.chance(0.9) ? pool[r.below(pool.size())] : fresh(r); }
static char *cs(const std::string &s) { return (char *)s.c_str(); }
/* a value for a condition, kept in the client's own memory; local: to be freed */
static gint param(char *db, const Val &v) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_query_param_null(db, nullptr);
    case WG_INTTYPE: return wg_encode_query_param_int(db, v.i);
    case WG_DOUBLETYPE: return wg_encode_query_param_double(db, v.d);
    case WG_FIXPOINTTYPE: return wg_encode_query_param_fixpoint(db, v.d);
    case WG_CHARTYPE: return wg_encode_query_param_char(db, (char)v.i);
    case WG_DATETYPE: return wg_encode_query_param_date(db, v.i);
    case WG_TIMETYPE: return wg_encode_query_param_time(db, v.i);
    case WG_STRTYPE: return wg_encode_query_param_str(db, cs(v.s), v.hx ? cs(v.x) : nullptr);
    case WG_URITYPE: return wg_encode_query_param_uri(db, cs(v.s), v.hx ? cs(v.x) : nullptr);
    case WG_XMLLITERALTYPE: return wg_encode_query_param_xmlliteral(db, cs(v.s), cs(v.x));
  }
  return WG_ILLEGAL;
}
static std::string ids(const std::vector<int> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? "," : "") + std::to_string(v[i]); return "{" + s + (v.size() > 12 ? ",..." : "") + "} (" + std::to_string(v.size()) + ")"; }
static std::string show(const std::vector<Arg> &as) {
  std::string s;
  for (auto &a : as) s += " [column " + std::to_string(a.col) + " cond " + std::to_string(a.cond) + " " + a.v.show() + "]";
  return s;
}
static std::string compare(char *db, const std::vector<gint> &got, const std::vector<Arg> &as, const char *what, size_t limit, const std::vector<int> *exact = nullptr) {
  std::map<gint, int> at;
  for (auto &x : M.recs) at[x.second.off] = x.first;
  std::vector<int> want, have;
  if (exact) want = *exact; else for (auto &x : M.recs) if (match(x.second, as)) want.push_back(x.first);
  for (gint o : got) {
    if (!at.count(o)) return std::string("wrong rows: ") + what + " gives something at " + std::to_string(o) + " that is no record;" + show(as);
    have.push_back(at[o]);
  }
  std::vector<int> s = have;
  std::sort(s.begin(), s.end());
  for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) return std::string("wrong rows: ") + what + " gives record " + std::to_string(s[i]) + " twice;" + show(as);
  if (limit && want.size() > limit) {
    if (s.size() != limit) return std::string("wrong rows: ") + what + " with limit " + std::to_string(limit) + " gives " + ids(s) + " of " + ids(want) + ";" + show(as);
    for (int x : s) if (!std::binary_search(want.begin(), want.end(), x)) return std::string("wrong rows: ") + what + " gives record " + std::to_string(x) + " that does not match;" + show(as);
  } else if (s != want) return std::string("wrong rows: ") + what + " gives " + ids(s) + ", a scan " + ids(want) + ";" + show(as);
  G.counters["rows"] += s.size();
  (void)db;
  return "";
}
static const int CONDS[] = {WG_COND_EQUAL, WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
static std::string query(char *db, Rng &r, std::vector<Arg> as, bool faults) {
  std::vector<gint> mr; std::vector<Val> mv; std::vector<Arg> all = as;
  if (r.chance(0.3)) {
    int n = 1 + r.below(COLS);
    for (int i = 0; i < n; i++) { Val v; v.t = WG_VARTYPE; if (r.chance(0.5)) v = some(r); if (v.t == WG_BLOBTYPE) v.t = WG_VARTYPE; mv.push_back(v); if (v.t != WG_VARTYPE) all.push_back({i, WG_COND_EQUAL, v}); }
    for (auto &v : mv) mr.push_back(v.t == WG_VARTYPE ? wg_encode_query_param_var(db, 0) : param(db, v));
  }
  std::vector<wg_query_arg> al;
  for (auto &a : as) { wg_query_arg x; x.column = a.col; x.cond = a.cond; x.value = param(db, a.v); al.push_back(x); }
  size_t limit = r.chance(0.15) ? 1 + r.below(40) : 0;
  std::string w;
  bool ok = true;
  for (auto &x : al) ok = ok && x.value != WG_ILLEGAL;
  for (auto x : mr) ok = ok && x != WG_ILLEGAL;
  if (ok) {
    void *m = mr.empty() ? nullptr : mr.data();
    wg_query *q = limit ? wg_make_query_rc(db, m, mr.size(), al.empty() ? nullptr : al.data(), al.size(), limit)
                        : wg_make_query(db, m, mr.size(), al.empty() ? nullptr : al.data(), al.size());
    if (!q) { if (!faults) w = "refused: a query is refused;" + show(all); else G.counters["query_refused"]++; }
    else {
      std::vector<gint> got;
      gint col = q->column;
      void *p;
      while ((p = wg_fetch(db, q))) { got.push_back((char *)p - db); if (got.size() > 20 * M.recs.size() + 100) break; }
      if (got.size() <= 20 * M.recs.size() + 100 && wg_fetch(db, q)) w = "wrong rows: a row after the last one";
      wg_free_query(db, q);
      S.ev("query with %zu conditions, index column %d: %lld rows", all.size(), (int)col, (long long)got.size());
      if (w.empty()) w = compare(db, got, all, "a query", limit);
      if (w.empty() && col >= 0) {
        std::map<gint, int> at;
        for (auto &x : M.recs) at[x.second.off] = x.first;
        for (size_t i = 1; i < got.size(); i++)
          if (cmpv(M.recs[at[got[i - 1]]].v[col], M.recs[at[got[i]]].v[col]) > 0) { w = "wrong order: a query through the index of column " + std::to_string(col) + " gives record " + std::to_string(at[got[i - 1]]) + " before " + std::to_string(at[got[i]]) + ";" + show(all); break; }
        G.counters["indexed_queries"]++;
      }
      G.counters["queries"]++;
    }
  } else if (!faults) w = "refused: a query value is refused;" + show(all);
  for (auto &x : al) if (x.value != WG_ILLEGAL) wg_free_query_param(db, x.value);
  for (auto x : mr) if (x != WG_ILLEGAL) wg_free_query_param(db, x);
  return w;
}
static std::string find(char *db, Rng &, Arg a, bool) {
  gint e = param(db, a.v);
  if (e == WG_ILLEGAL) return "";
  std::vector<gint> got;
  void *p = nullptr;
  while ((p = wg_find_record(db, a.col, a.cond, e, p))) { got.push_back((char *)p - db); if (got.size() > M.recs.size() + 5) break; }
  wg_free_query_param(db, e);
  G.counters["finds"]++;
  return compare(db, got, {a}, "wg_find_record", 0);
}
static std::string find_hash(char *db, Rng &r, const Idx &x, bool faults) {
  std::vector<gint> e; std::vector<Arg> as;
  const MRec *src = nullptr;
  if (r.chance(0.7)) { int id = M.any(r); if (id >= 0) src = &M.recs[id]; }
  for (gint c : x.cols) { Val v = src && c < (gint)src->v.size() ? src->v[c] : some(r); if (v.t == WG_BLOBTYPE) return ""; as.push_back({(int)c, WG_COND_EQUAL, v}); e.push_back(param(db, v)); }
  bool ok = true;
  for (auto v : e) ok = ok && v != WG_ILLEGAL;
  std::string w;
  if (ok) {
    gint l = wg_search_hash(db, x.id, e.data(), e.size());
    std::vector<gint> got;
    if (l < 0) { if (!faults) w = "refused: searching a hash index fails;" + show(as); }
    else {
      while (l > 0 && got.size() < M.recs.size() + 5) { gcell *c = (gcell *)(db + l); got.push_back(c->car); l = c->cdr; }
      std::vector<int> want;
      for (auto &m : M.recs) if (match(m.second, as) && tmatch(m.second, x.tmpl)) want.push_back(m.first);
      w = compare(db, got, as, "a hash index", 0, &want);
    }
    G.counters["hash_searches"]++;
  }
  for (auto v : e) if (v != WG_ILLEGAL) wg_free_query_param(db, v);
  return w;
}
static std::string find_ttree(char *db, Rng &r, const Idx &x, bool) {
  Arg a{(int)x.cols[0], WG_COND_EQUAL, some(r)};
  gint e = param(db, a.v);
  if (e == WG_ILLEGAL) return "";
  gint o = wg_search_ttree_index(db, x.id, e);
  wg_free_query_param(db, e);
  G.counters["ttree_searches"]++;
  bool any = false, hit = false;
  for (auto &m : M.recs) if (match(m.second, {a}) && tmatch(m.second, x.tmpl)) { any = true; hit = hit || m.second.off == o; }
  if (any && !hit) return "wrong rows: wg_search_ttree_index gives " + std::to_string(o) + " and not a matching record;" + show({a});
  if (!any && o > 0) return "wrong rows: wg_search_ttree_index finds a row where none matches;" + show({a});
  return "";
}
static std::string same_indexes(char *db, bool faults) {
  gint n = -1;
  gint *l = (gint *)wg_get_all_indexes(db, &n);
  std::multiset<gint> have, want;
  if (l) { for (gint i = 0; i < n; i++) have.insert(l[i]); ::free(l); } else if (faults) return "";
  for (auto &x : idx) want.insert(x.id);
  if (have != want) return "wrong indexes: " + std::to_string(have.size()) + " indexes are listed where " + std::to_string(want.size()) + " were made";
  for (auto &x : idx) {
    std::vector<gint> t;
    for (auto &v : x.tmpl) t.push_back(v.t == WG_VARTYPE ? wg_encode_query_param_var(db, 0) : param(db, v));
    gint id = wg_multi_column_to_index_id(db, x.cols.data(), x.cols.size(), x.type, t.empty() ? nullptr : t.data(), t.size());
    for (auto e : t) wg_free_query_param(db, e);
    if (id != x.id && !faults) return "wrong indexes: looking up the index of column " + std::to_string(x.cols[0]) + " gives " + std::to_string(id) + ", not " + std::to_string(x.id);
    if (wg_get_index_type(db, x.id) != x.type) return "wrong indexes: the type of an index is " + std::to_string(wg_get_index_type(db, x.id));
  }
  return "";
}
static bool room(char *db) { return dbmemsegh(db)->size - dbmemsegh(db)->free > 900000; }
static std::string make_index(char *db, Rng &r, bool faults) {
  Idx x; x.id = 0;
  int maxhash = KINDS == 3 ? 0 : 3, nhash = 0;
  for (auto &y : idx) nhash += y.type != WG_INDEX_TYPE_TTREE;
  x.type = nhash < maxhash && r.chance(0.3) ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE;
  int n = x.type == WG_INDEX_TYPE_HASH ? 1 + r.below(std::min(3, COLS)) : 1;
  std::set<gint> cs_;
  while ((int)cs_.size() < n) cs_.insert(r.below(COLS));
  x.cols.assign(cs_.begin(), cs_.end());
  bool bad = false;
  if (r.chance(0.3)) {
    int m = 1 + r.below(COLS); int fixed = 0;
    for (int i = 0; i < m; i++) { Val v; v.t = WG_VARTYPE; if (!cs_.count(i) && r.chance(0.7)) { v = some(r); if (v.t == WG_BLOBTYPE) v.t = WG_VARTYPE; else fixed++; } x.tmpl.push_back(v); }
    if (!fixed) x.tmpl.clear();
  }
  std::vector<gint> arg = x.cols;
  for (size_t i = 0; i < arg.size(); i++) std::swap(arg[i], arg[r.below(arg.size())]);
  int type = x.type;
  if (r.chance(0.1)) {
    bad = true;
    switch (r.below(4)) {
      case 0: type = r.pick(std::vector<i64>{0, 51, 77}); break;
      case 1: arg.push_back(arg[0]); break;
      case 2: arg[0] = MAX_INDEXED_FIELDNR + 1 + r.below(3); break;
      case 3: { type = WG_INDEX_TYPE_TTREE; if (arg.size() == 1) arg.push_back((arg[0] + 1) % 100); break; }
    }
  }
  for (auto &y : idx) if (y.type == type && y.cols == x.cols) {
    /* the same template up to trailing wildcards */
    auto trim = [](std::vector<Val> t) { while (!t.empty() && t.back().t == WG_VARTYPE) t.pop_back(); return t; };
    std::vector<Val> a = trim(y.tmpl), b = trim(x.tmpl);
    bool same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); i++) same = a[i].t == b[i].t && (a[i].t == WG_VARTYPE || !cmpv(a[i], b[i]));
    if (same) bad = true;
  }
  std::vector<gint> t;
  for (auto &v : x.tmpl) { gint e = v.t == WG_VARTYPE ? wg_encode_var(db, 0) : enc_val(db, v, M); if (e == WG_ILLEGAL) return ""; t.push_back(e); }
  gint before = dbmemsegh(db)->index_control_area_header.number_of_indexes;
  gint rc = wg_create_multi_index(db, arg.data(), arg.size(), type, t.empty() ? nullptr : t.data(), t.size());
  S.ev("create index type %d on column %d: %lld", type, (int)x.cols[0], (long long)rc);
  if (bad) {
    if (rc >= 0) return "accepted: an index that cannot be made (type " + std::to_string(type) + ", " + std::to_string(arg.size()) + " columns) is accepted";
    G.counters["bad_index_refused"]++;
    return "";
  }
  if (rc < 0) {
    if (room(db) && !faults) return "refused: creating an index of type " + std::to_string(type) + " on " + std::to_string(arg.size()) + " columns fails";
    if (dbmemsegh(db)->index_control_area_header.number_of_indexes != before) return "wrong indexes: a refused index is counted";
    G.counters["index_refused"]++;
    return "";
  }
  std::vector<gint> known;
  for (auto &y : idx) known.push_back(y.id);
  gint k = -1; gint *l = (gint *)wg_get_all_indexes(db, &k);
  if (l) {
    for (gint i = 0; i < k; i++) if (std::find(known.begin(), known.end(), l[i]) == known.end()) x.id = l[i];
    ::free(l);
  } else if (!faults) return "wrong indexes: listing the indexes fails after one was made";
  if (!x.id) {
    std::vector<gint> tt;
    for (auto &v : x.tmpl) tt.push_back(v.t == WG_VARTYPE ? wg_encode_query_param_var(db, 0) : enc_val(db, v, M));
    x.id = wg_multi_column_to_index_id(db, x.cols.data(), x.cols.size(), x.type, tt.empty() ? nullptr : tt.data(), tt.size());
    if (x.id <= 0) return "wrong indexes: an index that was made is not found";
  }
  idx.push_back(x);
  G.counters["indexes"]++;
  return "";
}
static std::string drop_index(char *db, Rng &r) {
  if (idx.empty()) return "";
  int k = r.below(idx.size());
  gint rc = wg_drop_index(db, idx[k].id);
  if (idx[k].type == WG_INDEX_TYPE_TTREE) {
    if (rc) return "refused: dropping an index fails";
    idx.erase(idx.begin() + k);
    G.counters["dropped"]++;
  } else if (!rc) idx.erase(idx.begin() + k); /* not offered by this version, but no harm */
  return "";
}
/* the ordering itself */
static std::string order(char *db, Rng &r, bool) {
  int id = M.any(r);
  if (id < 0) return "";
  MRec &m = M.recs[id];
  for (size_t i = 0; i < m.v.size(); i++) {
    Val v = some(r);
    gint e = v.t == WG_BLOBTYPE ? WG_ILLEGAL : param(db, v);
    if (e == WG_ILLEGAL) continue;
    gint f = wg_get_field(db, db + m.off, i);
    gint a = WG_COMPARE(db, f, e), b = WG_COMPARE(db, e, f);
    int x = cmpv(m.v[i], v), wa = x < 0 ? WG_LESSTHAN : x > 0 ? WG_GREATER : WG_EQUAL, wb = x > 0 ? WG_LESSTHAN : x < 0 ? WG_GREATER : WG_EQUAL;
    wg_free_query_param(db, e);
    if (a != wa || b != wb) return "wrong order: " + m.v[i].show() + " and " + v.show() + " compare as " + std::to_string(a) + " and " + std::to_string(b);
    G.counters["compared"]++;
  }
  return "";
}
static Arg rarg(Rng &r, bool cond = true) {
  Arg a;
  a.col = r.chance(0.97) ? r.below(COLS) : r.below(140);
  a.cond = cond ? CONDS[r.below(7)] : WG_COND_EQUAL;
  do a.v = some(r); while (a.v.t == WG_BLOBTYPE);
  return a;
}
static std::string look(char *db, Rng &r, bool faults) {
  double x = r.below(100) / 100.0;
  if (x < 0.5) {
    std::vector<Arg> as;
    int n = r.below(5);
    if (r.chance(0.6)) n = r.below(3);
    int c = r.below(COLS);
    for (int i = 0; i < n; i++) { as.push_back(rarg(r)); if (r.chance(0.6)) as.back().col = c; if (i && r.chance(0.2)) as.back().v = as[0].v; }
    return query(db, r, as, faults);
  }
  if (x < 0.55) return order(db, r, faults);
  if (x < 0.7) return find(db, r, rarg(r), faults);
  if (idx.empty()) return "";
  const Idx &y = idx[r.below(idx.size())];
  if (x < 0.97) return y.type == WG_INDEX_TYPE_HASH ? find_hash(db, r, y, faults) : find_ttree(db, r, y, faults);
  return same_indexes(db, faults);
}
static std::string change(char *db, Rng &r, const Program &p, bool faults) {
  double pdel = p.get("pdel") / 100.0;
  int id;
  if (M.recs.size() && (r.chance(pdel) || M.recs.size() > (size_t)p.get("maxrecs"))) {
    id = M.any(r);
    if (r.chance(0.3)) { id = M.recs.begin()->first; }
    S.ev("delete record %d", id);
    /* failing allocations during the removal of index rows are documented as index damage: none here */
    double pm = S.pol.p_malloc; S.pol.p_malloc = 0;
    std::string w = do_delete(db, M, id);
    S.pol.p_malloc = pm;
    G.counters["deleted"]++;
    return w;
  }
  int n = r.chance(0.15) ? r.below(COLS + 1) : COLS + r.below(2);
  if (n == 0) n = 1;
  std::vector<Val> vs;
  for (int i = 0; i < n; i++) vs.push_back(some(r));
  std::string err;
  id = do_create(db, M, vs, r.chance(0.3), err);
  if (!err.empty()) return err;
  if (id < 0) {
    if (id == -1) { if (room(db) && !faults) return "refused: creating a record in a segment with much room fails"; return ""; }
    id = -2 - id;
    if (room(db) && !faults) return "refused: encoding in a segment with much room fails";
  }
  double pm = S.pol.p_malloc; if (r.chance(0.7)) S.pol.p_malloc = 0;
  gint rc = wg_index_add_rec(db, db + M.recs[id].off);
  S.pol.p_malloc = pm;
  S.ev("record %d of %d into the indexes: %lld", id, n, (long long)rc);
  if (S.want_trace) for (auto &v : M.recs[id].v) S.ev("  record %d: %s", id, v.show().c_str());
  G.counters["added"]++;
  if (rc < -1) {
    if (room(db) && !faults) return "refused: entering a record in the indexes returns " + std::to_string(rc);
    closed = true;
    G.counters["add_failed"]++;
  }
  return "";
}
static void client(int c, const Program &p, char *db) {
  bool faults = p.get("faults");
  for (auto &op : p.ops[c]) {
    if (S.failed || closed) return;
    if (op[3]) S.sleep_ns(op[3]);
    gint l = op[0] == 0 ? wg_start_write(db) : wg_start_read(db);
    if (!l) { G.counters["no_lock"]++; continue; }
    Rng r((u64)op[1] * 0x9E3779B97F4A7C15ull + 5);
    std::string w;
    S.pol.p_malloc = faults ? 0.01 : 0;
    for (i64 k = 0; k < op[2] && w.empty() && !S.failed && !closed; k++) {
      if (op[0] == 0) {
        if (r.chance(0.03)) w = make_index(db, r, faults);
        else if (r.chance(0.01)) w = drop_index(db, r);
        else if (r.chance(0.3)) w = look(db, r, faults);
        else w = change(db, r, p, faults);
      } else w = look(db, r, faults);
    }
    S.pol.p_malloc = 0;
    if (!w.empty()) { S.fail(w + " (client " + std::to_string(c) + ")"); return; }
    gint e = op[0] == 0 ? wg_end_write(db, l) : wg_end_read(db, l);
    if (!e) { S.fail("wrong result: releasing the lock fails"); return; }
  }
}
static Program gen(u64 seed) {
  Rng r(seed * 0x9E3779B1u + 31);
  Program p;
  int nc = r.chance(0.5) ? 1 : r.range(2, 3);
  p.cfg["clients"] = nc;
  p.cfg["kinds"] = r.pick(std::vector<i64>{0, 0, 1, 1, 2, 3});
  p.cfg["cols"] = r.pick(std::vector<i64>{1, 2, 3, 3, 5});
  p.cfg["pool"] = r.pick(std::vector<i64>{2, 5, 12, 40, 200});
  p.cfg["pdel"] = r.pick(std::vector<i64>{5, 30, 45, 55});
  p.cfg["maxrecs"] = r.pick(std::vector<i64>{20, 20, 80, 80, 80, 400, 400, 1500});
  p.cfg["faults"] = r.chance(0.2);
  p.cfg["seg"] = r.chance(0.15);
  p.cfg["first"] = r.range(0, 4);
  for (int c = 0; c < nc; c++) p.cfg["cost" + std::to_string(c)] = r.pick(std::vector<i64>{1, 5, 20});
  p.ops.resize(nc);
  int total = r.range(2, r.chance(0.2) ? 24 : 8);
  int big = r.pick(std::vector<i64>{20, 60, 60, 250, 700});
  for (int i = 0; i < total; i++) p.ops[r.below(nc)].push_back({r.chance(0.75) ? 0 : 1, (i64)r.below(1u << 30), r.range(1, big), r.chance(0.4) ? (i64)r.below(20000) : 0});
  return p;
}
static std::string exec(const Program &p, u64 seed, const std::vector<Dec> *rep) {
  Seg &sg = segment(p.get("seg") ? 300000 : 3000000);
  sg.reset();
  int nc = p.get("clients");
  S.reset(seed, nc);
  M.clear(); idx.clear(); pool.clear(); closed = false;
  COLS = p.get("cols"); KINDS = p.get("kinds");
  Rng pr((u64)p.get("pool") * 77 + (u64)p.get("cols") * 1000 + p.get("pdel") * 5 + p.get("first") * 9999 + 1);
  for (i64 i = 0; i < p.get("pool"); i++) pool.push_back(fresh(pr));
  if (KINDS == 3) pool.push_back(Val());
  Rng r(seed * 0x9E3779B97F4A7C15ull + 7);
  S.pol = draw_policy(r, p);
  if (r.chance(0.3)) S.pol.p_plain = r.pick(std::vector<double>{0.005, 0.001});
  S.pol.pct_len = 1000 + r.below(100000);
  S.pol.p_malloc = 0;
  if (rep) S.load(*rep);
  S.max_steps = 600000000;
  bool faults = p.get("faults");
  for (int c = 0; c < nc; c++) S.f[c].body = [c, &p, &sg, faults]() {
    if (c == 0) {
      Rng q(p.get("first") * 31 + p.get("cols"));
      std::string w;
      gint l = wg_start_write(sg.map[0]);
      for (i64 i = 0; i < p.get("first") && w.empty(); i++) w = make_index(sg.map[0], q, faults);
      if (l) wg_end_write(sg.map[0], l);
      if (!w.empty()) { S.fail(w); return; }
    }
    client(c, p, sg.map[c]);
  };
  S.run();
  fold_stats();
  if (S.failed) return S.failure;
  if (S.clipped || S.deadlock) return "hang: the clients do not end";
  if (closed) return "";
  char *db = sg.map[nc % SEG_CLIENTS];
  /* at the end every index is asked for every value in use */
  Rng q(99);
  std::string w = same_indexes(db, false);
  for (int col = 0; col < COLS && w.empty(); col++)
    for (size_t i = 0; i < pool.size() && i < 40 && w.empty(); i++) {
      if (pool[i].t == WG_BLOBTYPE) continue;
      Arg a{col, CONDS[(i + col) % 7], pool[i]};
      w = find(db, q, a, false);
      if (w.empty()) w = query(db, q, {a}, false);
    }
  for (auto &x : idx) for (int k = 0; k < 20 && w.empty(); k++) w = x.type == WG_INDEX_TYPE_HASH ? find_hash(db, q, x, false) : find_ttree(db, q, x, false);
  if (!w.empty()) return w + " (at the end)";
  G.states.insert((u64)M.recs.size() * 1000003 + M.next * 31 + idx.size());
  return "";
}
void reg_index() { checks.push_back({"D03", gen, exec}); }
