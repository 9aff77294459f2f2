// C22: queries on the real Db/dbquery.c against a plain scan: all small tables, index configurations and condition lists.
#include "kv.hpp"
#include <memory>

namespace {
struct Ix { string nm; gint type; vector<int> cols; vector<KV> tmpl; vector<int> wild; bool before; };
struct Conf { string nm; vector<Ix> ix; };
typedef vector<KV> Row;
struct Cnd { int col, cond; size_t v; };

const int CONDS[6] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
const char *CN[6] = {"=", "!=", "<", ">", "<=", ">="};
bool holds(const KV &a, int cond, const KV &b) {
  switch (cond) {
    case 0: return a == b;
    case 1: return !(a == b);
    case 2: return a < b;
    case 3: return b < a;
    case 4: return !(b < a);
    default: return !(a < b);
  }
}
string rowname(const Row &r) { string s; for (auto &k : r) s += (s.empty() ? "" : ",") + k.name(); return "(" + s + ")"; }

u64 bytes(DbImage &im) {
  u64 h = 7, *p = (u64 *)dbmemseg(im.db);
  for (size_t n = im.used() / 8; n--; p++) h = (h ^ *p) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
  return h;
}

// one table under one index configuration
struct Tab {
  DbImage im;
  vector<KV> vals;
  vector<gint> venc;
  vector<Row> rows;
  vector<void *> rec;
  string what, err;
  u64 nontriv = 0, evals = 0;
  Tab(const vector<KV> &v) : im(4000000), vals(v) {
    void *db = im.db;
    for (auto &k : vals) venc.push_back(k.enc(db));
    void *keep = wg_create_raw_record(db, venc.size());
    for (size_t k = 0; k < venc.size(); k++) wg_set_new_field(db, keep, k, venc[k]);
    *((gint *)keep + RECORD_META_POS) |= RECORD_META_NOTDATA;
    im.mark();
  }
  void mkix(const Ix &x) {
    vector<gint> c(x.cols.begin(), x.cols.end()), e;
    for (size_t k = 0; k < x.tmpl.size(); k++) e.push_back(x.wild[k] ? wg_encode_var(im.db, k) : x.tmpl[k].enc(im.db));
    if (wg_create_multi_index(im.db, c.data(), c.size(), x.type, e.empty() ? nullptr : e.data(), e.size())) fail("index " + x.nm + " cannot be created");
  }
  void build(const vector<Row> &r, const Conf &c) {
    im.reset();
    err.clear();
    rows = r;
    rec.clear();
    what = "table";
    for (auto &x : r) what += " " + rowname(x);
    if (r.empty()) what += " empty";
    what += ", indexes: " + c.nm;
    for (auto &x : c.ix) if (x.before) mkix(x);
    for (auto &x : r) {
      void *p = wg_create_raw_record(im.db, x.size());
      for (size_t k = 0; k < x.size(); k++) wg_set_new_field(im.db, p, k, x[k].enc(im.db));
      if (wg_index_add_rec(im.db, p)) fail("a record cannot be added to the indexes");
      rec.push_back(p);
    }
    for (auto &x : c.ix) if (!x.before) mkix(x);
  }
  void fail(const string &e) { if (err.empty()) err = e; }
  int no(void *p) { for (size_t i = 0; i < rec.size(); i++) if (rec[i] == p) return i; return -1; }
  string cname(const vector<Cnd> &a) { string s; for (auto &c : a) s += (s.empty() ? "" : " and ") + string("field ") + std::to_string(c.col) + " " + CN[c.cond] + " " + vals[c.v].name(); return s.empty() ? "all" : s; }
  bool match(const Row &r, const Cnd &c) { return c.col < (int)r.size() && holds(r[c.col], c.cond, vals[c.v]); }
  static string show(const vector<int> &v) { string s; for (int x : v) s += (s.empty() ? "" : " ") + (x < 0 ? string("?") : std::to_string(x)); return "[" + s + "]"; }
  // the rows of a query object, in its order
  bool drain(wg_query *q, vector<int> &out) {
    size_t n = q->res_count;
    void *p;
    out.clear();
    while ((p = wg_fetch(im.db, q))) { out.push_back(no(p)); if (out.size() > rec.size() * 2 + 8) break; }
    bool again = wg_fetch(im.db, q) == nullptr;
    wg_free_query(im.db, q);
    return n == out.size() && again;
  }
  void judge(const string &q, vector<int> got, const vector<int> &want, bool ok, size_t limit) {
    evals++;
    if (!want.empty() && want.size() < rows.size()) nontriv++;
    std::sort(got.begin(), got.end());
    if (limit && limit < want.size()) {
      bool sub = got.size() == limit && std::unique(got.begin(), got.end()) == got.end() && std::includes(want.begin(), want.end(), got.begin(), got.end());
      if (!sub) return fail(q + " with at most " + std::to_string(limit) + " rows returns " + show(got) + " of " + show(want));
    } else if (got != want) return fail(q + " returns rows " + show(got) + " instead of " + show(want));
    if (!ok) fail(q + ": the row count is wrong or rows come after the end");
  }
  void query(const vector<Cnd> &a, size_t limit = 0) {
    vector<wg_query_arg> ar;
    for (auto &c : a) ar.push_back({c.col, CONDS[c.cond], venc[c.v]});
    vector<int> want, got;
    for (size_t i = 0; i < rows.size(); i++) { bool m = true; for (auto &c : a) if (!match(rows[i], c)) { m = false; break; } if (m) want.push_back(i); }
    wg_query *q = limit ? wg_make_query_rc(im.db, nullptr, 0, ar.empty() ? nullptr : ar.data(), ar.size(), limit) : wg_make_query(im.db, nullptr, 0, ar.empty() ? nullptr : ar.data(), ar.size());
    if (!q) return fail("query " + cname(a) + " cannot be made");
    bool ok = drain(q, got);
    judge("query " + (err.empty() ? cname(a) : ""), got, want, ok, limit);
  }
  void find(const Cnd &c) {
    vector<int> want, got;
    for (size_t i = 0; i < rows.size(); i++) if (match(rows[i], c)) want.push_back(i);
    for (void *p = nullptr; (p = wg_find_record(im.db, c.col, CONDS[c.cond], venc[c.v], p)) && got.size() < rows.size() + 3;) got.push_back(no(p));
    judge("finding records with " + cname({c}), got, want, true, 0);
  }
  // match record: one entry per field, -1: free
  void matchrec(const vector<int> &m, const vector<Cnd> &extra, void *native = nullptr) {
    vector<gint> e;
    vector<int> want, got;
    for (size_t k = 0; k < m.size(); k++) e.push_back(m[k] < 0 ? wg_encode_var(im.db, k) : venc[m[k]]);
    for (size_t i = 0; i < rows.size(); i++) {
      bool ok = true;
      for (size_t k = 0; k < m.size(); k++) if (m[k] >= 0 && !(k < rows[i].size() && rows[i][k] == vals[m[k]])) ok = false;
      for (auto &c : extra) if (!match(rows[i], c)) ok = false;
      if (ok) want.push_back(i);
    }
    vector<wg_query_arg> ar;
    for (auto &c : extra) ar.push_back({c.col, CONDS[c.cond], venc[c.v]});
    wg_query *q = wg_make_query(im.db, native ? native : (void *)e.data(), native ? 0 : e.size(), ar.empty() ? nullptr : ar.data(), ar.size());
    string nm = native ? "match with a stored record (" : "match with (";
    if (err.empty()) for (int x : m) nm += (x < 0 ? string("*") : vals[x].name()) + " ";
    nm += ") and " + cname(extra);
    if (!q) return fail(nm + " cannot be made");
    bool ok = drain(q, got);
    judge(nm, got, want, ok, 0);
  }
  int valno(const KV &k) { for (size_t i = 0; i < vals.size(); i++) if (vals[i] == k) return i; return -1; }
};

vector<Conf> confs() {
  auto T = [](vector<int> c, bool b) { string n = "tree("; for (int x : c) n += std::to_string(x); return Ix{n + ")" + (b ? "" : " built later"), WG_INDEX_TYPE_TTREE, c, {}, {}, b}; };
  auto H = [](vector<int> c, bool b) { string n = "hash("; for (int x : c) n += std::to_string(x); return Ix{n + ")" + (b ? "" : " built later"), WG_INDEX_TYPE_HASH, c, {}, {}, b}; };
  Ix tm{"tree(0) where 1 is 1", WG_INDEX_TYPE_TTREE, {0}, {KN(), KI(1)}, {1, 0}, true};
  Ix tl = tm;
  tl.before = false;
  Ix t2{"tree(1) where 0 is 0", WG_INDEX_TYPE_TTREE, {1}, {KI(0)}, {0}, true};
  Ix t3{"tree(0) where 1 is null", WG_INDEX_TYPE_TTREE, {0}, {KN(), KN()}, {1, 0}, true};
  Ix t4{"tree(1) where 0 is 0 and 2 is 1", WG_INDEX_TYPE_TTREE, {1}, {KI(0), KN(), KI(1)}, {0, 1, 0}, true};
  vector<Conf> r = {{"none", {}},
                    {"tree(0)", {T({0}, true)}},
                    {"tree(1) built later", {T({1}, false)}},
                    {"tree(0), tree(1)", {T({0}, true), T({1}, true)}},
                    {"tree(2)", {T({2}, true)}},
                    {"hash(0)", {H({0}, true)}},
                    {"hash(0,1), tree(1)", {H({0, 1}, false), T({1}, true)}},
                    {"tree(0) where 1 is 1", {tm}},
                    {"tree(0) where 1 is 1 built later, tree(0)", {tl, T({0}, true)}},
                    {"tree(1) where 0 is 0", {t2}},
                    {"tree(0) where 1 is null, tree(0) where 1 is 1", {t3, tm}},
                    {"tree(1) where 0 is 0 and 2 is 1, tree(1)", {t4, T({1}, true)}}};
  return r;
}

void finish(Tab &t, Ctx &c, u64 before) {
  if (bytes(t.im) != before) t.fail("the queries changed the database");
  if (!t.err.empty()) violation(c, t.what, t.what + ": " + t.err, {}, "");
  c.add("evaluations", t.evals);
  c.add("distinct_nontrivial", t.nontriv);
  t.evals = t.nontriv = 0;
}

void small_tables(Driver &d, string &txt) {
  vector<Row> ty = {{KI(0)}, {KI(1)}, {KN()}, {KI(0), KI(0)}, {KI(0), KI(1)}, {KI(1), KI(1)}, {KN(), KI(1)}, {KS("a"), KI(0)}, {KI(1), KN()}, {KI(0), KI(1), KI(1)}, {KI(1), KD(0.5), KI(0)}, {KS("a"), KN(), KN()}};
  vector<KV> vals = {KN(), KI(0), KI(1), KI(2), KD(0.5), KS("a")};
  auto cf = confs();
  struct Job { vector<int> t; int c; };
  vector<Job> js;
  int maxn = 3, n = ty.size();
  vector<vector<int>> tabs = {{}}, last = {{}};
  for (int k = 1; k <= maxn; k++) {
    vector<vector<int>> nx;
    for (auto &a : last) for (int x = 0; x < n; x++) { auto b = a; b.push_back(x); nx.push_back(b); }
    tabs.insert(tabs.end(), nx.begin(), nx.end());
    last = nx;
  }
  bool q = d.quick();
  for (auto &t : tabs) for (size_t c = 0; c < cf.size(); c++) js.push_back({t, (int)c});
  static Tab *tab = nullptr;
  d.pfor(js.size(), [&](u64 i, Ctx &c) {
    if (!tab) tab = new Tab(vals);
    Tab &t = *tab;
    vector<Row> rows;
    for (int x : js[i].t) rows.push_back(ty[x]);
    t.build(rows, cf[js[i].c]);
    Trace::set(t.what);
    Trace::limit(60);
    u64 b = bytes(t.im);
    vector<Cnd> all;
    for (int col = 0; col < 3; col++) for (int k = 0; k < 6; k++) for (size_t v = 0; v < vals.size(); v++) all.push_back({col, k, v});
    size_t nr = rows.size();
    t.query({});
    for (auto &x : all) {
      t.query({x});
      t.find(x);
      for (size_t l = 1; l <= nr + 1; l++) t.query({x}, l);
    }
    for (int k = 0; k < 6; k++) for (size_t v = 0; v < vals.size(); v++) { t.query({{4, k, v}}); t.find({4, k, v}); t.query({{200, k, v}}); }
    // pairs: all of them on up to two rows, on three rows those that use an index
    if (nr <= 2 || !q) for (auto &x : all) for (auto &y : all) t.query({x, y});
    else for (auto &x : all) { if (x.cond == 1 || x.v > 3) continue; for (auto &y : all) if (x.v != 3 && y.v < 3) t.query({x, y}); }
    // three conditions: two bounds and an equation
    if (nr && (nr <= 1 || !q)) for (auto &x : all) if (x.cond >= 2 && x.v > 0 && x.v < 4) for (auto &y : all) if (y.cond >= 2 && y.v > 0 && y.v < 3 && y.col == x.col) for (auto &z : all) if (z.cond < 1) t.query({x, y, z}), t.query({z, x, y});
    // match records of one to three fields
    int V = vals.size();
    for (int len = 1; len <= (q && nr > 2 ? 2 : 3); len++) {
      vector<int> m(len, -1);
      for (;;) {
        t.matchrec(m, {});
        if (nr && len == 2) for (auto &x : all) if (x.v > 0 && x.v < 3) t.matchrec(m, {x});
        int k = 0;
        while (k < len && ++m[k] == V) m[k++] = -1;
        if (k == len) break;
      }
    }
    for (size_t r = 0; r < nr; r++) {
      vector<int> m;
      for (auto &k : rows[r]) m.push_back(t.valno(k));
      t.matchrec(m, {}, t.rec[r]);
      for (auto &x : all) if (x.v < 3) t.matchrec(m, {x}, t.rec[r]);
    }
    finish(t, c, b);
    if (c.samples.empty()) c.sample(t.what);
    Trace::limit(0);
  }, 8);
  txt += std::to_string(tabs.size()) + " tables of up to " + std::to_string(maxn) + " records of " + std::to_string(n) + " kinds under " + std::to_string(cf.size()) + " index configurations: no, one and two conditions (all columns, conditions and " + std::to_string(vals.size()) + " values), match records, stored match records, row limits, record chains";
}

// tables with several tree nodes and several pages of results
void large_tables(Driver &d, string &txt) {
  vector<KV> vals;
  for (int k = -1; k <= 14; k++) vals.push_back(KI(k));
  vals.push_back(KN());
  vals.push_back(KS("z"));
  auto cf = confs();
  vector<int> sizes = d.quick() ? vector<int>{4, 9, 30, 62, 63, 64, 126, 127, 190} : vector<int>{4, 5, 6, 7, 8, 9, 10, 17, 25, 30, 40, 61, 62, 63, 64, 65, 100, 125, 126, 127, 128, 189, 190, 252, 253, 400};
  struct Job { int n, pat, c; };
  vector<Job> js;
  for (int n : sizes) for (int p = 0; p < 5; p++) for (size_t c = 0; c < cf.size(); c++) js.push_back({n, p, (int)c});
  static Tab *tab = nullptr;
  d.pfor(js.size(), [&](u64 i, Ctx &c) {
    if (!tab) tab = new Tab(vals);
    Tab &t = *tab;
    Job j = js[i];
    vector<Row> rows;
    for (int k = 0; k < j.n; k++) {
      long v = j.pat == 0 ? 0 : j.pat == 1 ? k * 13 / j.n : j.pat == 2 ? 13 - k * 13 / j.n : j.pat == 3 ? (k * 7) % 13 : k % 2;
      Row r = {KI(v), KI(k % 3)};
      if (k % 5 == 4) r.pop_back();
      if (k % 7 == 6) r.push_back(KI(k % 4));
      if (k % 11 == 10) r[0] = KN();
      rows.push_back(r);
    }
    t.build(rows, cf[j.c]);
    t.what = std::to_string(j.n) + " records in pattern " + std::to_string(j.pat) + ", indexes: " + cf[j.c].nm;
    Trace::set(t.what);
    Trace::limit(120);
    u64 b = bytes(t.im);
    t.query({});
    vector<Cnd> all;
    for (int col = 0; col < 2; col++) for (int k = 0; k < 6; k++) for (size_t v = 0; v < vals.size(); v++) all.push_back({col, k, v});
    for (auto &x : all) {
      t.query({x});
      if (j.n <= 64) t.find(x);
      for (int l : {1, 62, 63, 64, 126, j.n - 1, j.n}) if (l > 0) t.query({x}, l);
    }
    bool full = !d.quick() || j.n <= 9;
    for (auto &x : all) for (auto &y : all) if (full || (x.col == 0 && x.cond >= 2 && (y.cond >= 2 || y.col == 1) && x.v % 3 == 1 && y.v % 2 == 1)) t.query({x, y});
    finish(t, c, b);
    Trace::limit(0);
  }, 1);
  txt += "; tables of " + std::to_string(sizes.front()) + " to " + std::to_string(sizes.back()) + " records in 5 patterns under the same indexes, with all single conditions, pairs and row limits";
}

// values of all types: encoded in the database, as query parameters, and through the typed wrappers
void typed(Driver &d, string &txt) {
  struct V { string nm; std::function<gint(void *, bool)> enc; std::function<void *(void *, gint, gint, void *)> find; };
  vector<V> vs;
  static string L(40, 'x'), M(40, 'x');
  M[39] = 'y';
  auto S = [&](string s, string x) {
    auto a = std::make_shared<string>(s), b = std::make_shared<string>(x);
    vs.push_back({"text '" + s + "' " + x, [=](void *db, bool p) { char *e = b->empty() ? nullptr : &(*b)[0]; return p ? wg_encode_query_param_str(db, &(*a)[0], e) : wg_encode_str(db, &(*a)[0], e); },
                  b->empty() ? std::function<void *(void *, gint, gint, void *)>([=](void *db, gint f, gint c, void *l) { return wg_find_record_str(db, f, c, &(*a)[0], l); }) : nullptr});
  };
  auto U = [&](string s, string x) {
    auto a = std::make_shared<string>(s), b = std::make_shared<string>(x);
    vs.push_back({"uri '" + s + "' " + x, [=](void *db, bool p) { return p ? wg_encode_query_param_uri(db, &(*a)[0], &(*b)[0]) : wg_encode_uri(db, &(*a)[0], &(*b)[0]); },
                  [=](void *db, gint f, gint c, void *l) { return wg_find_record_uri(db, f, c, &(*a)[0], &(*b)[0], l); }});
  };
  auto X = [&](string s, string x) {
    auto da = std::make_shared<string>(s), db_ = std::make_shared<string>(x);
    V v;
    v.nm = "xml '" + s + "' " + x;
    v.enc = [da, db_](void *db, bool p) { return p ? wg_encode_query_param_xmlliteral(db, da->data(), db_->data()) : wg_encode_xmlliteral(db, da->data(), db_->data()); };
    v.find = [da, db_](void *db, gint f, gint c, void *l) { return wg_find_record_xmlliteral(db, f, c, da->data(), db_->data(), l); };
    vs.push_back(v);
  };
  auto I = [&](long x) {
    std::function<void *(void *, gint, gint, void *)> f = nullptr;
    if (x == (int)x) f = [=](void *db, gint fl, gint c, void *l) { return wg_find_record_int(db, fl, c, (int)x, l); };
    vs.push_back({std::to_string(x), [=](void *db, bool p) { return p ? wg_encode_query_param_int(db, x) : wg_encode_int(db, x); }, f});
  };
  auto D = [&](double x) { vs.push_back({"double " + std::to_string(x), [=](void *db, bool p) { return p ? wg_encode_query_param_double(db, x) : wg_encode_double(db, x); }, [=](void *db, gint f, gint c, void *l) { return wg_find_record_double(db, f, c, x, l); }}); };
  vs.push_back({"null", [](void *db, bool p) { return p ? wg_encode_query_param_null(db, nullptr) : wg_encode_null(db, nullptr); }, [](void *db, gint f, gint c, void *l) { return wg_find_record_null(db, f, c, nullptr, l); }});
  for (long x : {0L, 1L, -1L, 1000000000L, -2000000000L, 1L << 31, 1L << 40, -(1L << 62), (1L << 62) + 1}) I(x);
  for (double x : {0.0, 1.0, -0.5, 1e300, 0.1}) D(x);
  S("", ""); S("a", ""); S("ab", ""); S(L, ""); S(M, ""); S("a", "en"); S("a", "et"); S(L, "en"); S(string(25, 'q'), ""); S(string(24, 'q'), ""); S(string(23, 'q'), "");
  U("a", "http://x/"); U("b", "http://x/"); U("a", "http://y/"); U(L, "p");
  X("a", "t"); X("a", "u"); X(L, "t");
  for (char ch : {'a', 'b'}) vs.push_back({string("char ") + ch, [=](void *db, bool p) { return p ? wg_encode_query_param_char(db, ch) : wg_encode_char(db, ch); }, [=](void *db, gint f, gint c, void *l) { return wg_find_record_char(db, f, c, ch, l); }});
  for (double x : {0.5, -3.25}) vs.push_back({"fixpoint", [=](void *db, bool p) { return p ? wg_encode_query_param_fixpoint(db, x) : wg_encode_fixpoint(db, x); }, [=](void *db, gint f, gint c, void *l) { return wg_find_record_fixpoint(db, f, c, x, l); }});
  for (int x : {1, 730000}) vs.push_back({"date " + std::to_string(x), [=](void *db, bool p) { return p ? wg_encode_query_param_date(db, x) : wg_encode_date(db, x); }, [=](void *db, gint f, gint c, void *l) { return wg_find_record_date(db, f, c, x, l); }});
  for (int x : {1, 8000000}) vs.push_back({"time " + std::to_string(x), [=](void *db, bool p) { return p ? wg_encode_query_param_time(db, x) : wg_encode_time(db, x); }, [=](void *db, gint f, gint c, void *l) { return wg_find_record_time(db, f, c, x, l); }});
  for (int x : {0, 7}) vs.push_back({"var " + std::to_string(x), [=](void *db, bool p) { return p ? wg_encode_query_param_var(db, x) : wg_encode_var(db, x); }, [=](void *db, gint f, gint c, void *l) { return wg_find_record_var(db, f, c, x, l); }});
  u64 n = vs.size();
  // the order of the stored values (which is the subject of C23)
  vector<vector<gint>> truth(n, vector<gint>(n));
  {
    DbImage im(4000000);
    vector<gint> e;
    void *keep = wg_create_raw_record(im.db, n);
    for (u64 k = 0; k < n; k++) wg_set_new_field(im.db, keep, k, vs[k].enc(im.db, false));
    for (u64 a = 0; a < n; a++) for (u64 b = 0; b < n; b++) truth[a][b] = WG_COMPARE(im.db, wg_get_field(im.db, keep, a), wg_get_field(im.db, keep, b));
  }
  // every value is searched for: stored everywhere, stored everywhere but in the table, with and without an index
  d.pfor(n * 4, [&](u64 i, Ctx &c) {
    size_t v = i / 4;
    bool present = i % 2, tree = i / 2 % 2;
    DbImage im(4000000);
    void *db = im.db;
    vector<void *> rec;
    vector<gint> enc;
    vector<size_t> of;
    string what = "searching " + vs[v].nm + (present ? "" : ", which no record has,") + " among values of all types" + (tree ? " with an index" : "");
    Trace::set(what);
    string e;
    for (size_t k = 0; k < n; k++) {
      if (!present && k == v) continue;
      for (int twice = 0; twice < 2; twice++) {
        void *r = wg_create_raw_record(db, 1);
        gint x = vs[k].enc(db, false);
        if (x == WG_ILLEGAL || wg_set_new_field(db, r, 0, x)) e = "value cannot be stored: " + vs[k].nm;
        rec.push_back(r);
        of.push_back(k);
        enc.push_back(wg_get_field(db, r, 0));
      }
    }
    if (tree && wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, nullptr, 0)) e = "index cannot be created";
    u64 b = bytes(im);
    vector<u64> old((u64 *)dbmemseg(db), (u64 *)dbmemseg(db) + im.used() / 8);
    gint par = vs[v].enc(db, true);
    for (int k = 0; k < 6 && e.empty(); k++) {
      vector<int> want, got, got2, got3;
      auto no = [&](void *p) { for (size_t z = 0; z < rec.size(); z++) if (rec[z] == p) return (int)z; return -1; };
      for (size_t z = 0; z < rec.size(); z++) {
        gint cmp = truth[of[z]][v];
        if (cmp != WG_COMPARE(db, enc[z], par)) { e = "the query parameter " + vs[v].nm + " compares with " + vs[of[z]].nm + " in another way than the stored value"; break; }
        bool m = k == 0 ? cmp == WG_EQUAL : k == 1 ? cmp != WG_EQUAL : k == 2 ? cmp == WG_LESSTHAN : k == 3 ? cmp == WG_GREATER : k == 4 ? cmp != WG_GREATER : cmp != WG_LESSTHAN;
        if (m) want.push_back(z);
      }
      wg_query_arg a = {0, CONDS[k], par};
      wg_query *q = wg_make_query(db, nullptr, 0, &a, 1);
      void *p;
      if (!q) e = "query cannot be made";
      else {
        while ((p = wg_fetch(db, q)) && got.size() < rec.size() + 5) got.push_back(no(p));
        wg_free_query(db, q);
      }
      for (p = nullptr; (p = wg_find_record(db, 0, CONDS[k], par, p)) && got2.size() < rec.size() + 5;) got2.push_back(no(p));
      std::sort(got.begin(), got.end());
      std::sort(got2.begin(), got2.end());
      if (e.empty() && got != want) e = string("query ") + CN[k] + " returns " + Tab::show(got) + " instead of " + Tab::show(want);
      if (e.empty() && got2 != want) e = string("record chain ") + CN[k] + " returns " + Tab::show(got2) + " instead of " + Tab::show(want);
      if (vs[v].find) {
        for (p = nullptr; (p = vs[v].find(db, 0, CONDS[k], p)) && got3.size() < rec.size() + 5;) got3.push_back(no(p));
        std::sort(got3.begin(), got3.end());
        if (e.empty() && got3 != want) e = string("typed record chain ") + CN[k] + " returns " + Tab::show(got3) + " instead of " + Tab::show(want);
      }
      c.add("evaluations", 3);
      if (!want.empty() && want.size() < rec.size()) c.add("distinct_nontrivial", 3);
    }
    wg_free_query_param(db, par);
    if (e.empty() && bytes(im) != b && getenv("GKV_DBG")) { u64 *p = (u64 *)dbmemseg(db); FILE *f = fopen("/tmp/dbg", "a"); for (size_t k = 0; k < old.size(); k++) if (p[k] != old[k]) fprintf(f, "%s off %zu: %lx -> %lx\n", what.c_str(), k * 8, old[k], p[k]); fclose(f); }
    if (e.empty() && bytes(im) != b) e = "the queries changed the database";
    if (!e.empty()) violation(c, what, what + ": " + e, {}, "");
  }, 1);
  txt += "; " + std::to_string(n) + " values of all types as query parameters, present and absent, with and without an index, also through the typed search functions";
}

// indexes whose headers lie beyond four gigabytes
void far_indexes(Driver &d, string &txt) {
  d.pfor(1, [&](u64, Ctx &c) {
    string what = "indexes in a database of more than four gigabytes";
    Trace::set(what);
    Trace::limit(120);
    gint size = (gint)5 << 30;
    void *db = wg_attach_local_database(size);
    if (!db) { fprintf(stderr, "CHECK ERROR: no memory\n"); exit(4); }
    dbmemsegh(db)->free = ((gint)1 << 32) + ((gint)1 << 26);  // as if a little more than 4 GB were in use
    string e;
    vector<void *> rec;
    const int N = 120;
    vector<gint> col = {0};
    for (int i = 0; i < N && e.empty(); i++) {
      gint cc = i;
      if (wg_create_index(db, cc, WG_INDEX_TYPE_TTREE, nullptr, 0)) e = "index " + std::to_string(i) + " cannot be created";
    }
    for (int r = 0; r < 5 && e.empty(); r++) {
      void *p = wg_create_raw_record(db, N);
      for (int k = 0; k < N; k++) wg_set_new_field(db, p, k, wg_encode_int(db, (r * k) % 5));
      if (wg_index_add_rec(db, p)) e = "record cannot be added";
      rec.push_back(p);
    }
    gint top = 0;
    for (int k = 0; k < N && e.empty(); k++) {
      top = std::max(top, (gint)wg_column_to_index_id(db, k, WG_INDEX_TYPE_TTREE, nullptr, 0));
      for (int v = 0; v < 5; v++) {
        wg_query_arg a = {k, WG_COND_EQUAL, wg_encode_int(db, v)};
        int want = 0, got = 0;
        for (int r = 0; r < 5; r++) if (r * k % 5 == v) want++;
        wg_query *q = wg_make_query(db, nullptr, 0, &a, 1);
        if (!q) { e = "query cannot be made"; break; }
        while (wg_fetch(db, q) && got < 10) got++;
        wg_free_query(db, q);
        c.add("evaluations");
        c.add("distinct_nontrivial");
        if (got != want) { e = "field " + std::to_string(k) + " = " + std::to_string(v) + " returns " + std::to_string(got) + " rows instead of " + std::to_string(want); break; }
      }
    }
    if (e.empty() && top < (gint)1 << 32) { fprintf(stderr, "CHECK ERROR: no index header beyond 4 GB\n"); exit(4); }
    if (!e.empty()) violation(c, what, what + ": " + e, {}, "");
    wg_delete_local_database(db);
  }, 1);
  txt += "; 120 indexes in a database of 5 GB";
}

void c22(Driver &d) {
  quiet_stderr();
  string t;
  small_tables(d, t);
  large_tables(d, t);
  typed(d, t);
  far_indexes(d, t);
  d.texts["spaces"] = t;
}
CheckReg r22("C22", c22);
}
