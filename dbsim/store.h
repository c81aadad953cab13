/* A plain model of the record store and the operations that keep it in step with the real one. */
#pragma once
#include "seg.h"
struct Val {
  int t = WG_NULLTYPE;
  i64 i = 0; double d = 0;
  std::string s, x; bool hx = false;     /* string and its language, prefix or type */
  int rec = -1;                          /* linked record */
  std::string show() const;
};
struct MRec { int id; gint off; bool raw; std::vector<Val> v; std::vector<gint> enc; int refs = 0; };
struct Model {
  std::map<int, MRec> recs;
  int next = 0;
  std::vector<std::string> pool;         /* strings used again and again */
  void clear() { recs.clear(); next = 0; pool.clear(); }
  int any(Rng &r) const;                 /* an existing record or -1 */
};
Val rand_val(Rng &r, Model &m, int kinds, int maxlen);
/* encodes through the client's own pointer; WG_ILLEGAL when it fails */
gint enc_val(char *db, const Val &v, const Model &m);
/* "" or how the stored value differs */
std::string diff_val(char *db, gint e, const Val &v, const Model &m);
std::string diff_rec(char *db, const MRec &r, const Model &m);
/* full scan: each live record once, nothing else */
std::string diff_scan(char *db, const Model &m, bool contents);
/* create: fails -> returns -1 and why in err (empty err: the segment refused) */
int do_create(char *db, Model &m, const std::vector<Val> &vals, bool raw, std::string &err);
std::string do_delete(char *db, Model &m, int id);
/* one write transaction of op = {_, seed, n, ...} with cfg kinds, maxlen, pdel; fails the run when a result is wrong */
void txn_write(char *db, Model &m, const std::vector<i64> &op, const Program &p, int c);
