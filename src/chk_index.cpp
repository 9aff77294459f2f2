// C21: T-tree, hash and template indexes, explored as state spaces (the real Db/dbindex.c, Db/dbhash.c).
#include "kv.hpp"

static u64 U(gint x) { return (u64)x; }

// ------------------------------------------------------------------ one T-tree index over n records
struct TTree : Model {
  string nm;
  vector<KV> key;       // key of record i
  vector<KV> probes;    // values searched for
  vector<gint> penc;
  DbImage im;
  gint idx = 0;
  vector<gint> recs;    // record offsets
  std::map<gint, int> num;
  u64 in = 0, in0 = 0, sin = 0;
  bool addonly0;
  // pre: the records that are in the index at the start, added in this order; bulk: through index creation
  TTree(const string &n, vector<KV> k, vector<int> pre, bool bulk) : nm(n), key(k), im(3000000) {
    void *db = im.db;
    std::set<KV> u(key.begin(), key.end());
    for (auto &x : u) probes.push_back(x);
    // also values between and beyond
    if (key[0].cls == 1) for (auto &x : u) if (x.cls == 1 && !u.count(KI(x.i + 1))) probes.push_back(KI(x.i + 1));
    if (u.begin()->cls == 1) probes.push_back(KI(u.begin()->i - 1));
    probes.push_back(KN());
    probes.push_back(KS("zzz"));
    std::sort(probes.begin(), probes.end());
    probes.erase(std::unique(probes.begin(), probes.end()), probes.end());
    for (auto &p : probes) penc.push_back(p.enc(db));
    auto mk = [&](int i) {
      void *r = wg_create_record(db, 2);
      wg_set_new_field(db, r, 0, key[i].enc(db));
      wg_set_new_field(db, r, 1, wg_encode_int(db, i));
      recs[i] = ptrtooffset(db, r);
      num[recs[i]] = i;
    };
    recs.resize(key.size());
    if (bulk) for (int i : pre) mk(i);
    if (wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, nullptr, 0)) bad("index cannot be created");
    idx = wg_column_to_index_id(db, 0, WG_INDEX_TYPE_TTREE, nullptr, 0);
    if (idx <= 0) bad("index is not found");
    for (size_t i = 0; i < key.size(); i++) if (!recs[i]) mk(i);
    if (!bulk) for (int i : pre) if (wg_index_add_rec(db, rp(i))) bad("a record cannot be added");
    for (int i : pre) in |= 1ull << i;
    in0 = in;
    im.mark();
  }
  string fatal;
  void bad(const string &s) { if (fatal.empty()) fatal = s; }
  void *rp(int i) { return offsettoptr(im.db, recs[i]); }
  string name() const override { return nm; }
  int nops() const override { return key.size(); }
  string opname(int op) const override { return "toggle" + std::to_string(op) + "(" + key[op].name() + ")"; }
  void reset() override { im.reset(); in = in0; }
  void save() override { im.save(); sin = in; }
  void restore() override { im.restore(); in = sin; }
  bool apply(int op) override {
    if (in >> op & 1) {
      gint rc = wg_index_del_rec(im.db, rp(op));
      if (rc) err = "removing record " + std::to_string(op) + " from the index returns " + std::to_string(rc);
    } else {
      gint rc = wg_index_add_rec(im.db, rp(op));
      if (rc) err = "adding record " + std::to_string(op) + " to the index returns " + std::to_string(rc);
    }
    in ^= 1ull << op;
    return true;
  }
  wg_index_header *hdr() { return (wg_index_header *)offsettoptr(im.db, idx); }
  wg_tnode *node(gint o) { return (wg_tnode *)offsettoptr(im.db, o); }
  std::map<gint, int> ord;  // place of each node in the tree
  void number(gint o, int depth) {
    if (!o || depth > 40 || ord.size() > 200) return;
    int k = ord.size() + 1;
    if (!ord.emplace(o, k).second) return;
    number(node(o)->left_child_offset, depth + 1);
    number(node(o)->right_child_offset, depth + 1);
  }
  int place(gint o) { if (!o) return 0; auto it = ord.find(o); return it == ord.end() ? 999 : it->second; }
  u64 fingerprint() override {
    ord.clear();
    number(TTREE_ROOT_NODE(hdr()), 0);
    u64 f = mix(in, ord.size());
    for (auto &[o, k] : ord) {
      wg_tnode *n = node(o);
      u64 g = mix(k, n->number_of_elements);
      for (int i = 0; i < n->number_of_elements && i < WG_TNODE_ARRAY_SIZE; i++) {
        auto it = num.find(n->array_of_values[i]);
        g = mix(g, it == num.end() ? 999 : it->second);
      }
      g = mix(g, n->left_subtree_height * 256 + n->right_subtree_height);
      g = mix(g, place(n->left_child_offset));
      g = mix(g, place(n->right_child_offset));
      g = mix(g, place(n->parent_offset));
      g = mix(g, place(n->succ_offset));
      g = mix(g, place(n->pred_offset));
      g = mix(g, n->current_min);
      g = mix(g, n->current_max);
      f += g;
    }
    f = mix(f, place(TTREE_MIN_NODE(hdr())));
    return mix(f, place(TTREE_MAX_NODE(hdr())));
  }
  // run a query on column 0, the rows it returns
  bool query(vector<wg_query_arg> a, vector<int> &out) {
    wg_query *q = wg_make_query(im.db, nullptr, 0, a.data(), a.size());
    if (!q) return false;
    void *r;
    out.clear();
    u64 n = q->res_count;
    while ((r = wg_fetch(im.db, q))) {
      auto it = num.find(ptrtooffset(im.db, r));
      out.push_back(it == num.end() ? -1 : it->second);
      if (out.size() > 4 * key.size() + 8) break;
    }
    wg_free_query(im.db, q);
    return n == out.size();
  }
  string cmp(const vector<wg_query_arg> &a, std::function<bool(const KV &)> f, const string &what) {
    vector<int> got;
    bool ok = query(a, got);
    vector<int> want, g = got;
    for (size_t i = 0; i < key.size(); i++) if ((in >> i & 1) && f(key[i])) want.push_back(i);
    std::sort(g.begin(), g.end());
    if (g != want) return "query " + what + " on the indexed column returns " + rows(got) + " instead of " + rows(want);
    if (!ok) return "query " + what + " fails or counts its rows wrongly";
    for (size_t i = 1; i < got.size(); i++)
      if (key[got[i]] < key[got[i - 1]]) return "query " + what + " returns rows out of order: " + rows(got);
    return "";
  }
  string check() override {
    if (!fatal.empty()) return fatal;
    string e;
    // point lookup
    for (size_t p = 0; p < probes.size(); p++) {
      gint r = wg_search_ttree_index(im.db, idx, penc[p]);
      int want = 0;
      for (size_t i = 0; i < key.size(); i++) if ((in >> i & 1) && key[i] == probes[p]) want++;
      if (r == 0) { if (want) return "search for " + probes[p].name() + " finds nothing, " + std::to_string(want) + " records have it"; continue; }
      auto it = num.find(r);
      if (it == num.end() || !(in >> it->second & 1) || !(key[it->second] == probes[p]))
        return "search for " + probes[p].name() + " finds " + (it == num.end() ? string("no record") : "record " + std::to_string(it->second));
    }
    for (size_t p = 0; p < probes.size(); p++) {
      gint c = penc[p];
      const KV &v = probes[p];
      string n = v.name();
      if (!(e = cmp({{0, WG_COND_EQUAL, c}}, [&](const KV &k) { return k == v; }, "= " + n)).empty()) return e;
      if (!(e = cmp({{0, WG_COND_LESSTHAN, c}}, [&](const KV &k) { return k < v; }, "< " + n)).empty()) return e;
      if (!(e = cmp({{0, WG_COND_GREATER, c}}, [&](const KV &k) { return v < k; }, "> " + n)).empty()) return e;
      if (!(e = cmp({{0, WG_COND_LTEQUAL, c}}, [&](const KV &k) { return !(v < k); }, "<= " + n)).empty()) return e;
      if (!(e = cmp({{0, WG_COND_GTEQUAL, c}}, [&](const KV &k) { return !(k < v); }, ">= " + n)).empty()) return e;
      if (!(e = cmp({{0, WG_COND_NOT_EQUAL, c}}, [&](const KV &k) { return !(k == v); }, "!= " + n)).empty()) return e;
      for (size_t q = p; q < probes.size() && q < p + pairspan; q++) {
        const KV &w = probes[q];
        string m = n + " .. " + w.name();
        if (!(e = cmp({{0, WG_COND_GREATER, c}, {0, WG_COND_LESSTHAN, penc[q]}}, [&](const KV &k) { return v < k && k < w; }, "between, both open, " + m)).empty()) return e;
        if (!(e = cmp({{0, WG_COND_GTEQUAL, c}, {0, WG_COND_LTEQUAL, penc[q]}}, [&](const KV &k) { return !(k < v) && !(w < k); }, "between, both closed, " + m)).empty()) return e;
        if (!(e = cmp({{0, WG_COND_GTEQUAL, c}, {0, WG_COND_LESSTHAN, penc[q]}}, [&](const KV &k) { return !(k < v) && k < w; }, "between, closed-open, " + m)).empty()) return e;
        if (!(e = cmp({{0, WG_COND_GREATER, c}, {0, WG_COND_LTEQUAL, penc[q]}}, [&](const KV &k) { return v < k && !(w < k); }, "between, open-closed, " + m)).empty()) return e;
      }
    }
    return "";
  }
  size_t pairspan = 3;
};

// ------------------------------------------------------------------ one hash index
struct HashIdx : Model {
  string nm;
  vector<vector<KV>> key;  // fields of record i
  vector<int> cols;
  vector<vector<KV>> probes;
  vector<vector<gint>> penc;
  DbImage im;
  gint idx = 0;
  vector<gint> recs;
  std::map<gint, int> num;
  u64 in = 0, in0 = 0, sin = 0;
  HashIdx(const string &n, vector<vector<KV>> k, vector<int> c, vector<int> pre) : nm(n), key(k), cols(c), im(3000000) {
    void *db = im.db;
    recs.resize(key.size());
    auto mk = [&](int i) {
      void *r = wg_create_record(db, key[i].size());
      for (size_t f = 0; f < key[i].size(); f++) wg_set_new_field(db, r, f, key[i][f].enc(db));
      recs[i] = ptrtooffset(db, r);
      num[recs[i]] = i;
    };
    for (int i : pre) mk(i);
    vector<gint> cc(cols.begin(), cols.end());
    if (wg_create_multi_index(db, cc.data(), cc.size(), WG_INDEX_TYPE_HASH, nullptr, 0)) fatal = "index cannot be created";
    idx = wg_multi_column_to_index_id(db, cc.data(), cc.size(), WG_INDEX_TYPE_HASH, nullptr, 0);
    if (idx <= 0) fatal = "index is not found";
    for (size_t i = 0; i < key.size(); i++) if (!recs[i]) mk(i);
    for (int i : pre) in |= 1ull << i;
    in0 = in;
    std::set<vector<KV>> u;
    for (auto &r : key) {
      vector<KV> p;
      for (int c : cols) p.push_back(c < (int)r.size() ? r[c] : KI(12345));
      u.insert(p);
      if (p.size() > 1) { std::swap(p[0], p[1]); u.insert(p); }
    }
    for (auto &p : u) {
      probes.push_back(p);
      vector<gint> e;
      for (auto &x : p) e.push_back(x.enc(db));
      penc.push_back(e);
    }
    im.mark();
  }
  string fatal;
  bool qualifies(int i) const { for (int c : cols) if (c >= (int)key[i].size()) return false; return true; }
  void *rp(int i) { return offsettoptr(im.db, recs[i]); }
  string name() const override { return nm; }
  int nops() const override { return key.size(); }
  string opname(int op) const override {
    string s;
    for (auto &k : key[op]) s += (s.empty() ? "" : ",") + k.name();
    return "toggle" + std::to_string(op) + "(" + s + ")";
  }
  void reset() override { im.reset(); in = in0; }
  void save() override { im.save(); sin = in; }
  void restore() override { im.restore(); in = sin; }
  bool apply(int op) override {
    gint rc = in >> op & 1 ? wg_index_del_rec(im.db, rp(op)) : wg_index_add_rec(im.db, rp(op));
    if (rc) err = string(in >> op & 1 ? "removing" : "adding") + " record " + std::to_string(op) + " returns " + std::to_string(rc);
    in ^= 1ull << op;
    return true;
  }
  vector<int> find(size_t p) {
    vector<int> out;
    gint l = wg_search_hash(im.db, idx, penc[p].data(), penc[p].size());
    while (l > 0 && out.size() < 100) {
      gcell *c = (gcell *)offsettoptr(im.db, l);
      auto it = num.find(c->car);
      out.push_back(it == num.end() ? -1 : it->second);
      l = c->cdr;
    }
    if (l < 0) out.push_back(-2);
    return out;
  }
  u64 fingerprint() override {
    // order of the rows under each key, and of the keys in their chains (seen by walking the table)
    u64 f = 5;
    db_hash_area_header *ha = HASHIDX_ARRAYP(((wg_index_header *)offsettoptr(im.db, idx)));
    for (gint k = 0; k < ha->arraylength; k++) {
      gint b = dbfetch(im.db, ha->arraystart + k * sizeof(gint));
      int guard = 0;
      for (; b > 0 && guard < 50; guard++) {
        f = mix(f, U(k) * 64 + guard);
        gint l = dbfetch(im.db, b + HASHIDX_RECLIST_POS * sizeof(gint));
        for (int g2 = 0; l > 0 && g2 < 50; g2++) {
          gcell *c = (gcell *)offsettoptr(im.db, l);
          auto it = num.find(c->car);
          f = mix(f, it == num.end() ? 999 : it->second);
          l = c->cdr;
        }
        b = dbfetch(im.db, b + HASHIDX_HASHCHAIN_POS * sizeof(gint));
      }
    }
    return mix(f, in);
  }
  bool check_all() override { return true; }
  string check() override {
    if (!fatal.empty()) return fatal;
    for (size_t p = 0; p < probes.size(); p++) {
      vector<int> got = find(p), want;
      for (size_t i = 0; i < key.size(); i++) {
        if (!(in >> i & 1) || !qualifies(i)) continue;
        bool m = true;
        for (size_t c = 0; c < cols.size(); c++) if (!(key[i][cols[c]] == probes[p][c])) m = false;
        if (m) want.push_back(i);
      }
      std::sort(got.begin(), got.end());
      if (got != want) {
        string s;
        for (auto &x : probes[p]) s += " " + x.name();
        return "hash search for" + s + " finds " + rows(got) + " instead of " + rows(want);
      }
    }
    return "";
  }
};

// values whose one-column hash keys share a chain: found by adding them to a real index and looking
static vector<vector<long>> colliding_ints(int wantgroups, size_t size) {
  DbImage im(6000000);
  void *db = im.db;
  wg_create_index(db, 0, WG_INDEX_TYPE_HASH, nullptr, 0);
  gint idx = wg_column_to_index_id(db, 0, WG_INDEX_TYPE_HASH, nullptr, 0);
  vector<vector<long>> out;
  if (idx <= 0) return out;
  db_hash_area_header *ha = HASHIDX_ARRAYP(((wg_index_header *)offsettoptr(db, idx)));
  void *r = wg_create_record(db, 1);
  std::map<gint, vector<long>> by;
  for (long v = 1; v < 4000 && (int)out.size() < wantgroups; v++) {
    wg_set_new_field(db, r, 0, wg_encode_int(db, v));
    if (wg_index_add_rec(db, r)) break;
    for (gint k = 0; k < ha->arraylength; k++)
      if (dbfetch(db, ha->arraystart + k * sizeof(gint))) {
        by[k].push_back(v);
        if (by[k].size() == size) out.push_back(by[k]);
        break;
      }
    if (wg_index_del_rec(db, r)) break;
  }
  return out;
}

// ------------------------------------------------------------------ several indexes, records created and deleted
struct MultiIdx : Model {
  struct Ix { string nm; gint type; vector<int> cols; vector<KV> tmpl; vector<int> wild; };  // wild[i]: template column i is free
  string nm;
  vector<Ix> ixs;
  vector<vector<KV>> types;  // record types
  size_t maxrec;
  DbImage im;
  struct Rec { gint off; int type; };
  struct St { vector<Rec> recs; vector<char> have; } st, st0, ss;
  vector<vector<gint>> tenc, xenc;
  vector<KV> vals;
  vector<gint> venc;
  MultiIdx(const string &n, vector<Ix> x, vector<vector<KV>> t, size_t mr) : nm(n), ixs(x), types(t), maxrec(mr), im(3000000) {
    void *db = im.db;
    for (auto &r : types) { vector<gint> e; for (auto &k : r) e.push_back(k.enc(db)); tenc.push_back(e); }
    for (auto &i : ixs) {
      vector<gint> e;
      for (size_t k = 0; k < i.tmpl.size(); k++) e.push_back(i.wild[k] ? wg_encode_var(db, k) : i.tmpl[k].enc(db));
      xenc.push_back(e);
    }
    std::set<KV> u;
    for (auto &r : types) for (auto &k : r) u.insert(k);
    for (auto &k : u) { vals.push_back(k); venc.push_back(k.enc(db)); }
    // keep all long values alive
    void *keep = wg_create_raw_record(db, venc.size());
    for (size_t k = 0; k < venc.size(); k++) wg_set_new_field(db, keep, k, venc[k]);
    *((gint *)keep + RECORD_META_POS) |= RECORD_META_NOTDATA;
    // memory of the segment is not cleared when it is attached: free cells hold anything
    db_area_header *ar = &im.h()->indextmpl_area_header;
    for (gint p = ar->freelist; p; p = dbfetch(db, p)) for (gint k = 8; k < ar->objlength; k += 8) dbstore(db, p + k, 0x5a5a5a5a5a5all);
    st.have.assign(ixs.size(), 0);
    st0 = st;
    im.mark();
  }
  string name() const override { return nm; }
  int nops() const override { return 2 * ixs.size() + types.size() + maxrec; }
  string opname(int op) const override {
    int n = ixs.size();
    if (op < n) return "create " + ixs[op].nm;
    if (op < 2 * n) return "drop " + ixs[op - n].nm;
    op -= 2 * n;
    if (op < (int)types.size()) {
      string s;
      for (auto &k : types[op]) s += (s.empty() ? "" : ",") + k.name();
      return "record(" + s + ")";
    }
    return "delete#" + std::to_string(op - types.size());
  }
  void reset() override { im.reset(); st = st0; }
  void save() override { im.save(); ss = st; }
  void restore() override { im.restore(); st = ss; }
  gint idof(int i) {
    vector<gint> cc(ixs[i].cols.begin(), ixs[i].cols.end());
    return wg_multi_column_to_index_id(im.db, cc.data(), cc.size(), ixs[i].type, xenc[i].empty() ? nullptr : xenc[i].data(), xenc[i].size());
  }
  bool apply(int op) override {
    void *db = im.db;
    int n = ixs.size();
    if (op < n) {
      vector<gint> cc(ixs[op].cols.begin(), ixs[op].cols.end());
      std::reverse(cc.begin(), cc.end());
      gint rc = wg_create_multi_index(db, cc.data(), cc.size(), ixs[op].type, xenc[op].empty() ? nullptr : xenc[op].data(), xenc[op].size());
      if (st.have[op]) { if (rc == 0) err = "an identical index can be created twice"; return true; }
      if (rc) err = "index " + ixs[op].nm + " cannot be created";
      st.have[op] = 1;
      return true;
    }
    if (op < 2 * n) {
      op -= n;
      if (!st.have[op] || ixs[op].type == WG_INDEX_TYPE_HASH) return false;  // dropping hash indexes is not supported by the library
      gint id = idof(op);
      if (id <= 0) { err = "index " + ixs[op].nm + " is not found"; return true; }
      gint rc = wg_drop_index(db, id);
      if (rc) err = "index " + ixs[op].nm + " cannot be dropped";
      st.have[op] = 0;
      return true;
    }
    op -= 2 * n;
    if (op < (int)types.size()) {
      if (st.recs.size() >= maxrec) return false;
      void *r = wg_create_raw_record(db, types[op].size());
      if (!r) { err = "no record"; return true; }
      for (size_t k = 0; k < types[op].size(); k++) wg_set_new_field(db, r, k, types[op][k].enc(db));
      gint rc = wg_index_add_rec(db, r);
      if (rc) err = "adding a record to the indexes returns " + std::to_string(rc);
      st.recs.push_back({ptrtooffset(db, r), op});
      return true;
    }
    op -= types.size();
    if (op >= (int)st.recs.size()) return false;
    gint rc = wg_delete_record(db, offsettoptr(db, st.recs[op].off));
    if (rc) err = "deleting a record returns " + std::to_string(rc);
    st.recs.erase(st.recs.begin() + op);
    return true;
  }
  int recno(gint off) { for (size_t i = 0; i < st.recs.size(); i++) if (st.recs[i].off == off) return i; return -1; }
  bool belongs(int ix, const Rec &r) {
    auto &t = types[r.type];
    for (int c : ixs[ix].cols) if (c >= (int)t.size()) return false;
    for (size_t k = 0; k < ixs[ix].tmpl.size(); k++) if (!ixs[ix].wild[k]) if (k >= t.size() || !(t[k] == ixs[ix].tmpl[k])) return false;
    return true;
  }
  // all rows of an index, in its order
  bool content(int ix, vector<int> &out) {
    void *db = im.db;
    gint id = idof(ix);
    if (id <= 0) return false;
    wg_index_header *h = (wg_index_header *)offsettoptr(db, id);
    out.clear();
    if (ixs[ix].type == WG_INDEX_TYPE_TTREE) {
      for (gint n = TTREE_MIN_NODE(h); n > 0 && out.size() < 200;) {
        wg_tnode *t = (wg_tnode *)offsettoptr(db, n);
        for (int k = 0; k < t->number_of_elements; k++) out.push_back(recno(t->array_of_values[k]));
        n = TNODE_SUCCESSOR(db, t);
      }
    } else {
      // every combination of the values
      size_t nc = ixs[ix].cols.size();
      vector<size_t> p(nc, 0);
      for (;;) {
        vector<gint> e;
        for (auto x : p) e.push_back(venc[x]);
        for (gint l = wg_search_hash(db, id, e.data(), nc); l > 0 && out.size() < 200;) {
          gcell *c = (gcell *)offsettoptr(db, l);
          int r = recno(c->car);
          if (r >= 0) for (size_t k = 0; k < nc; k++) {
            int col = ixs[ix].cols[k];
            if (col >= (int)types[st.recs[r].type].size() || !(types[st.recs[r].type][col] == vals[p[k]])) r = -1;
            if (r < 0) break;
          }
          out.push_back(r);
          l = c->cdr;
        }
        size_t k = 0;
        while (k < nc && ++p[k] == vals.size()) p[k++] = 0;
        if (k == nc) break;
      }
    }
    return true;
  }
  u64 fingerprint() override {
    u64 f = 9;
    for (auto &r : st.recs) f = mix(f, r.type + 1);
    for (size_t i = 0; i < ixs.size(); i++) {
      f = mix(f, 100 + st.have[i]);
      if (!st.have[i]) continue;
      vector<int> c;
      f = mix(f, content(i, c));
      for (int x : c) f = mix(f, x + 7);
    }
    // the order of the index lists
    auto list = [&](gint l) { for (int g = 0; l > 0 && g < 20; g++) { gcell *c = (gcell *)offsettoptr(im.db, l); int w = 99; for (size_t i = 0; i < ixs.size(); i++) if (st.have[i] && idof(i) == c->car) w = i; f = mix(f, w); l = c->cdr; } f = mix(f, 77); };
    auto &ic = im.h()->index_control_area_header;
    for (int c = 0; c < 4; c++) { list(ic.index_table[c]); list(ic.index_template_table[c]); }
    list(ic.index_list);
    for (gint l = ic.index_template_list, g = 0; l > 0 && g < 20; g++) {
      gcell *c = (gcell *)offsettoptr(im.db, l);
      wg_index_template *t = (wg_index_template *)offsettoptr(im.db, c->car);
      f = mix(f, t->fixed_columns * 100 + t->refcount);
      l = c->cdr;
    }
    return f;
  }
  bool check_all() override { return true; }
  string check() override {
    void *db = im.db;
    std::set<gint> ids;
    for (size_t i = 0; i < ixs.size(); i++) {
      gint id = idof(i);
      if (!st.have[i]) { if (id > 0) return "the dropped or never created index " + ixs[i].nm + " is found"; continue; }
      if (id <= 0) return "index " + ixs[i].nm + " is not found";
      if (!ids.insert(id).second) return "two indexes have one identity";
      if (wg_get_index_type(db, id) != ixs[i].type) return "index " + ixs[i].nm + " has the wrong type";
      gint tl = 0;
      gint *tp = (gint *)wg_get_index_template(db, id, &tl);
      if (!ixs[i].tmpl.empty() != (tp != nullptr)) return "index " + ixs[i].nm + ": template lost or invented";
      vector<int> got, want;
      content(i, got);
      for (size_t r = 0; r < st.recs.size(); r++) if (belongs(i, st.recs[r])) want.push_back(r);
      if (ixs[i].type == WG_INDEX_TYPE_TTREE) {
        int c = ixs[i].cols[0];
        for (size_t k = 1; k < got.size(); k++) if (got[k] >= 0 && got[k - 1] >= 0 && types[st.recs[got[k]].type][c] < types[st.recs[got[k - 1]].type][c]) return "index " + ixs[i].nm + " is out of order";
      }
      std::sort(got.begin(), got.end());
      if (got != want) return "index " + ixs[i].nm + " holds " + rows(got) + " instead of " + rows(want);
    }
    gint n = 0;
    gint *all = (gint *)wg_get_all_indexes(db, &n);
    std::set<gint> s;
    if (all) s.insert(all, all + n);
    free(all);
    if (s != ids || (gint)ids.size() != n) return "the list of all indexes has " + std::to_string(n) + " entries instead of " + std::to_string(ids.size());
    // templates are kept exactly as long as an index uses them
    std::set<vector<gint>> tm;
    for (size_t i = 0; i < ixs.size(); i++) if (st.have[i] && !ixs[i].tmpl.empty()) tm.insert(xenc[i]);
    size_t nt = 0;
    for (gint l = im.h()->index_control_area_header.index_template_list; l > 0 && nt < 50; nt++) l = ((gcell *)offsettoptr(db, l))->cdr;
    if (nt != tm.size()) return std::to_string(nt) + " index templates are kept, " + std::to_string(tm.size()) + " are in use";
    // the number of data records
    size_t c = 0;
    for (void *r = wg_get_first_record(db); r && c < 100; r = wg_get_next_record(db, r)) { if (recno(ptrtooffset(db, r)) < 0) return "a scan of the records shows a record that is not there"; c++; }
    if (c != st.recs.size()) return "a scan of the records shows " + std::to_string(c) + " of " + std::to_string(st.recs.size());
    return "";
  }
};

static vector<int> upto(int n) { vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }

// long runs: m keys added in one pattern and removed in another, checked after every step
static void runs(Driver &d, string &t) {
  struct P { string nm; std::function<vector<int>(int)> f; };
  vector<P> ps = {
    {"ascending", [](int m) { return upto(m); }},
    {"descending", [](int m) { auto v = upto(m); std::reverse(v.begin(), v.end()); return v; }},
    {"middle out", [](int m) { vector<int> v; for (int k = 0; k < m; k++) v.push_back(k % 2 ? m / 2 - 1 - k / 2 : m / 2 + k / 2); if (m % 2) { for (auto &x : v) x = x < 0 ? m - 1 : x; } std::set<int> s; vector<int> o; for (int x : v) if (x >= 0 && x < m && s.insert(x).second) o.push_back(x); for (int x = 0; x < m; x++) if (s.insert(x).second) o.push_back(x); return o; }},
    {"outside in", [](int m) { vector<int> v; for (int k = 0; k < m; k++) v.push_back(k % 2 ? m - 1 - k / 2 : k / 2); return v; }},
    {"even then odd", [](int m) { vector<int> v; for (int k = 0; k < m; k += 2) v.push_back(k); for (int k = 1; k < m; k += 2) v.push_back(k); return v; }},
    {"bit reversed", [](int m) { vector<int> v; int b = 1; while (b < m) b *= 2; for (int k = 0; k < b; k++) { int r = 0; for (int x = 1, y = b / 2; x < b; x *= 2, y /= 2) if (k & x) r |= y; if (r < m) v.push_back(r); } return v; }},
    {"every third", [](int m) { vector<int> v; for (int s = 0; s < 3; s++) for (int k = s; k < m; k += 3) v.push_back(k); return v; }},
  };
  int M = d.quick() ? 40 : 60;
  struct Job { int a, b, m, dup; };
  vector<Job> js;
  for (int m = 1; m <= M; m += d.quick() ? 3 : 1) for (size_t a = 0; a < ps.size(); a++) for (size_t b = 0; b < ps.size(); b++) for (int dup : {1, 4, 60}) js.push_back({(int)a, (int)b, m, dup});
  d.pfor(js.size(), [&](u64 i, Ctx &c) {
    Job j = js[i];
    vector<KV> k;
    for (int x = 0; x < j.m; x++) k.push_back(KI(10 + 2 * (x / j.dup)));
    string nm = "run of " + std::to_string(j.m) + " keys, each " + std::to_string(j.dup) + " times, added " + ps[j.a].nm + ", removed " + ps[j.b].nm;
    Trace::set(nm);
    Trace::limit(60);
    TTree t(nm, k, {}, false);
    t.pairspan = 2;
    string e = t.check();
    auto step = [&](int x, const char *w) {
      if (!e.empty()) return;
      t.err.clear();
      t.apply(x);
      e = t.err.empty() ? t.check() : t.err;
      if (!e.empty()) e += " after " + string(w) + " record " + std::to_string(x);
      c.add("transitions");
      c.add("states");
    };
    for (int x : ps[j.a].f(j.m)) step(x, "adding");
    for (int x : ps[j.b].f(j.m)) step(x, "removing");
    for (int x : ps[j.b].f(j.m)) step(x, "adding again");
    if (!e.empty()) violation(c, nm, nm + ": " + e, {}, "");
    c.add("traces_validated_against_impl");
    Trace::limit(0);
  }, 1);
  t += "; complete runs of up to " + std::to_string(M) + " keys in all pairs of " + std::to_string(ps.size()) + " add and remove orders";
}

static void c21(Driver &d, bool small) {
  quiet_stderr();
  string t;
  bool q = d.quick();
  auto run = [&](Model *m, int depth, u64 cap) {
    auto r = bfs(d, *m, depth, cap);
    t += (t.empty() ? "" : "; ") + m->name() + ": " + std::to_string(r.states) + " states, histories up to " + std::to_string(r.depth) + (r.fixpoint ? " (all reachable states)" : "");
    delete m;
  };
  auto ints = [](int n, int dup) { vector<KV> v; for (int i = 0; i < n; i++) v.push_back(KI(10 + 2 * (i / dup))); return v; };
  u64 cap = q ? 120000 : 3000000;
  string ns = "nodes of " + std::to_string(WG_TNODE_ARRAY_SIZE);
  if (small) {
    run(new TTree(ns + ": 9 distinct keys", ints(9, 1), {}, false), 40, cap);
    run(new TTree(ns + ": 12 distinct keys", ints(12, 1), {}, false), 40, cap);
    run(new TTree(ns + ": 12 keys of which all but three present, bulk", ints(12, 1), upto(9), true), 30, cap);
    run(new TTree(ns + ": 10 records with 5 keys", ints(10, 2), {}, false), 40, cap);
    run(new TTree(ns + ": 10 records with 2 keys", ints(10, 5), {}, false), 40, cap);
    run(new TTree(ns + ": 9 records with one key", ints(9, 9), {}, false), 40, cap);
    run(new TTree(ns + ": nulls, numbers and texts", {KN(), KI(-3), KI(1L << 40), KI((1L << 40) + 7), KD(0.5), KD(-2.25), KS("a"), KS(string(50, 'a')), KS(string(50, 'a') + "b"), KN(), KS("a")}, {}, false), 30, cap);
    run(new TTree(ns + ": 21 keys present, up to 5 changes", ints(24, 1), upto(21), true), q ? 3 : 5, cap);
    run(new TTree(ns + ": 28 records of 7 keys present, up to 5 changes", ints(30, 4), upto(28), true), q ? 3 : 4, cap);
    auto cg = colliding_ints(2, 3);
    auto sp = [](vector<long> v) { vector<vector<KV>> r; for (long x : v) r.push_back({KI(x)}); return r; };
    vector<long> c1;
    for (auto &g : cg) c1.insert(c1.end(), g.begin(), g.end());
    if (c1.size() >= 3) {
      auto k = sp(c1);
      k.push_back(k[0]);
      k.push_back(k[1]);
      run(new HashIdx("hash: " + std::to_string(c1.size()) + " keys in shared chains and two repeated", k, {0}, {}), 30, cap / 2);
    }
    const long W = 1L << 32;
    run(new HashIdx("hash: numbers equal in their low 32 bits, zeros, equal bytes of different types", {{KI(5)}, {KI(5 + W)}, {KI(5 - 2 * W)}, {KD(0.0)}, {KD(-0.0)}, {KI(0)}, {KN()}, {KS("")}, {KS("5")}}, {0}, {}), 30, cap / 4);
    run(new HashIdx("hash: two columns, split texts and short records", {{KS("ab"), KS("c")}, {KS("a"), KS("bc")}, {KS("ab"), KS("c")}, {KS("ab")}, {KI(1), KI(2)}, {KI(2), KI(1)}, {KN(), KN()}, {KS("a"), KN(), KI(1)}}, {0, 1}, {0, 4}), 9, cap / 4);
    run(new HashIdx("hash: columns 0 and 2", {{KI(1), KI(7), KI(2)}, {KI(1), KI(8), KI(2)}, {KI(2), KI(7), KI(1)}, {KI(1), KI(2)}, {KS("x"), KI(0), KS("y")}, {KI(1), KI(7), KI(3)}}, {0, 2}, {1}), 9, cap / 4);
    typedef MultiIdx::Ix Ix;
    vector<vector<KV>> ty = {{KI(1), KI(7)}, {KI(2), KI(7), KS("q")}, {KI(1), KI(8), KN()}, {KI(3)}};
    run(new MultiIdx("indexes on two columns", {Ix{"tree(0)", WG_INDEX_TYPE_TTREE, {0}, {}, {}}, Ix{"tree(1)", WG_INDEX_TYPE_TTREE, {1}, {}, {}}, Ix{"hash(0,1)", WG_INDEX_TYPE_HASH, {0, 1}, {}, {}}}, ty, 3), q ? 6 : 8, cap / 2);
    run(new MultiIdx("indexes with templates", {Ix{"tree(0) where 1 is 7", WG_INDEX_TYPE_TTREE, {0}, {KN(), KI(7)}, {1, 0}}, Ix{"tree(2) where 1 is 7", WG_INDEX_TYPE_TTREE, {2}, {KN(), KI(7)}, {1, 0}}, Ix{"tree(0)", WG_INDEX_TYPE_TTREE, {0}, {}, {}}}, ty, 3), q ? 6 : 8, cap / 2);
    run(new MultiIdx("templates on one column", {Ix{"tree(0) where 1 is 7", WG_INDEX_TYPE_TTREE, {0}, {KN(), KI(7)}, {1, 0}}, Ix{"tree(0) where 1 is 8 and 2 is null", WG_INDEX_TYPE_TTREE, {0}, {KN(), KI(8), KN()}, {1, 0, 0}}, Ix{"tree(1) where 0 is 1", WG_INDEX_TYPE_TTREE, {1}, {KI(1)}, {0}}, Ix{"hash(0) where 1 is 7", WG_INDEX_TYPE_HASH, {0}, {KN(), KI(7)}, {1, 0}}}, ty, 3), q ? 5 : 7, cap / 2);
  } else {
    // a fixed set of starting trees, and every short history from each
    for (int m : q ? vector<int>{16, 25, 40} : vector<int>{7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 40, 48})
      for (int dup : {1, 9}) {
        auto up = upto(m), down = up;
        std::reverse(down.begin(), down.end());
        int n = m + 3;
        run(new TTree(ns + ": " + std::to_string(m) + " present (ascending), keys repeated " + std::to_string(dup), ints(n, dup), up, true), 2, cap);
        run(new TTree(ns + ": " + std::to_string(m) + " present (descending), keys repeated " + std::to_string(dup), ints(n, dup), down, false), 2, cap);
      }
    runs(d, t);
  }
  d.texts["spaces"] = t;
}
static CheckReg r21("C21", [](Driver &d) { c21(d, true); });
static CheckReg r21b("C21stock", [](Driver &d) { c21(d, false); });
