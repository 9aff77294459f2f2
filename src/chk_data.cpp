// C19 encode/decode identity, C23 comparison order, C24 dates and times: the real Db/dbdata.c, Db/dbcompare.c
#include "db.hpp"
#include <cmath>
#include <limits>

// ------------------------------------------------------------------ values
struct Val {
  gint type = 0;
  long i = 0;
  double d = 0;
  string s, x;       // text, extra part
  bool hasx = false;
  string name() const {
    static const char *tn[] = {"?", "null", "rec", "int", "double", "str", "xml", "uri", "blob", "char", "fix", "date", "time", "anon", "var"};
    char b[64];
    string r = string(tn[type]) + "(";
    if (type == WG_DOUBLETYPE || type == WG_FIXPOINTTYPE) { snprintf(b, 64, "%.17g", d); r += b; }
    else if (type >= WG_STRTYPE && type <= WG_BLOBTYPE) {
      r += s.size() > 40 ? s.substr(0, 12) + "..[" + std::to_string(s.size()) + "]" : s;
      if (hasx) r += "^" + (x.size() > 40 ? x.substr(0, 8) + "..[" + std::to_string(x.size()) + "]" : x);
    } else r += std::to_string(i);
    return r + ")";
  }
  bool operator==(const Val &o) const {
    return type == o.type && i == o.i && memcmp(&d, &o.d, 8) == 0 && s == o.s && hasx == o.hasx && x == o.x;
  }
};
static Val VI(long i) { Val v; v.type = WG_INTTYPE; v.i = i; return v; }
static Val VD(double d) { Val v; v.type = WG_DOUBLETYPE; v.d = d; return v; }
static Val VX(gint t, long i) { Val v; v.type = t; v.i = i; return v; }
static Val VF(double d) { Val v; v.type = WG_FIXPOINTTYPE; v.d = d; return v; }
static Val VS(gint t, const string &s, const char *x = nullptr) {
  Val v;
  v.type = t;
  v.s = s;
  if (x) { v.hasx = true; v.x = x; }
  return v;
}
static Val VSX(gint t, const string &s, const string &x) { return VS(t, s, x.c_str()); }

static gint enc(void *db, const Val &v) {
  string s = v.s, x = v.x;  // the library must not keep our buffers
  char *xp = v.hasx ? &x[0] : nullptr;
  gint r = WG_ILLEGAL;
  switch (v.type) {
    case WG_NULLTYPE: r = wg_encode_null(db, nullptr); break;
    case WG_INTTYPE: r = wg_encode_int(db, v.i); break;
    case WG_DOUBLETYPE: r = wg_encode_double(db, v.d); break;
    case WG_CHARTYPE: r = wg_encode_char(db, (char)v.i); break;
    case WG_FIXPOINTTYPE: r = wg_encode_fixpoint(db, v.d); break;
    case WG_DATETYPE: r = wg_encode_date(db, v.i); break;
    case WG_TIMETYPE: r = wg_encode_time(db, v.i); break;
    case WG_VARTYPE: r = wg_encode_var(db, v.i); break;
    case WG_STRTYPE: r = wg_encode_str(db, &s[0], xp); break;
    case WG_XMLLITERALTYPE: r = wg_encode_xmlliteral(db, &s[0], xp); break;
    case WG_URITYPE: r = wg_encode_uri(db, &s[0], xp); break;
    case WG_BLOBTYPE: r = wg_encode_blob(db, &s[0], xp, v.s.size()); break;
  }
  memset(&s[0], '#', s.size());
  memset(&x[0], '#', x.size());
  return r;
}
// "" when the encoded value decodes to v again (ddb: the base its offset is relative to)
static string dec(void *ddb, gint e, const Val &v) {
  if (e == WG_ILLEGAL && v.type != WG_NULLTYPE) return "could not be encoded";
  gint t = wg_get_encoded_type(ddb, e);
  if (t != v.type) return "has type code " + std::to_string(t);
  auto cmp = [&](const char *p, gint len, gint want) -> string {
    if (!p) return "decodes to no text";
    if (len != want) return "decodes to length " + std::to_string(len);
    if (memcmp(p, v.s.data(), v.s.size())) return "decodes to another text";
    return "";
  };
  auto cmpx = [&](const char *p, gint len) -> string {
    if (!v.hasx) return p ? "got an extra part" : len != 0 ? "extra part has a length" : "";
    if (!p) return "lost its extra part";
    if (len != (gint)v.x.size() || strcmp(p, v.x.c_str())) return "extra part changed";
    return "";
  };
  // copies with exactly the needed room must succeed, with one byte less they must be refused
  auto cpy = [&](std::function<gint(char *, gint)> f, const string &want, bool term) -> string {
    vector<char> b(want.size() + 9, 'Z');
    gint need = want.size() + (term ? 1 : 0);
    if (need < 1) return "";
    if (f(b.data(), need) != (gint)want.size()) return "copy fails";
    if (memcmp(b.data(), want.data(), want.size()) || (term && b[want.size()]) || b[need] != 'Z') return "copy is wrong";
    if (want.size() > 0) {
      std::fill(b.begin(), b.end(), 'Z');
      f(b.data(), need - 1);
      if (b[need - 1] != 'Z') return "copy overruns its buffer";
    }
    return "";
  };
  string r;
  switch (v.type) {
    case WG_NULLTYPE: return e == 0 ? "" : "is not 0";
    case WG_INTTYPE: return wg_decode_int(ddb, e) == v.i ? "" : "decodes to " + std::to_string(wg_decode_int(ddb, e));
    case WG_DOUBLETYPE: { double d = wg_decode_double(ddb, e); return memcmp(&d, &v.d, 8) == 0 ? "" : "decodes to " + std::to_string(d); }
    case WG_CHARTYPE: return wg_decode_char(ddb, e) == (char)v.i ? "" : "decodes to another char";
    case WG_FIXPOINTTYPE: { double d = wg_decode_fixpoint(ddb, e); return std::fabs(d - v.d) < 1e-9 ? "" : "decodes to " + std::to_string(d); }
    case WG_DATETYPE: return wg_decode_date(ddb, e) == v.i ? "" : "decodes to another date";
    case WG_TIMETYPE: return wg_decode_time(ddb, e) == v.i ? "" : "decodes to another time";
    case WG_VARTYPE: return wg_decode_var(ddb, e) == v.i ? "" : "decodes to another variable";
    case WG_STRTYPE:
      r = cmp(wg_decode_str(ddb, e), wg_decode_str_len(ddb, e), v.s.size());
      if (r.empty()) r = cmpx(wg_decode_str_lang(ddb, e), wg_decode_str_lang_len(ddb, e));
      if (r.empty()) r = cpy([&](char *b, gint n) { return wg_decode_str_copy(ddb, e, b, n); }, v.s, true);
      if (r.empty() && v.hasx) r = cpy([&](char *b, gint n) { return wg_decode_str_lang_copy(ddb, e, b, n); }, v.x, true);
      return r;
    case WG_XMLLITERALTYPE:
      r = cmp(wg_decode_xmlliteral(ddb, e), wg_decode_xmlliteral_len(ddb, e), v.s.size());
      if (r.empty()) r = cmpx(wg_decode_xmlliteral_xsdtype(ddb, e), wg_decode_xmlliteral_xsdtype_len(ddb, e));
      if (r.empty()) r = cpy([&](char *b, gint n) { return wg_decode_xmlliteral_copy(ddb, e, b, n); }, v.s, true);
      return r;
    case WG_URITYPE:
      r = cmp(wg_decode_uri(ddb, e), wg_decode_uri_len(ddb, e), v.s.size());
      if (r.empty()) r = cmpx(wg_decode_uri_prefix(ddb, e), wg_decode_uri_prefix_len(ddb, e));
      if (r.empty()) r = cpy([&](char *b, gint n) { return wg_decode_uri_copy(ddb, e, b, n); }, v.s, true);
      if (r.empty() && v.hasx) r = cpy([&](char *b, gint n) { return wg_decode_uri_prefix_copy(ddb, e, b, n); }, v.x, true);
      return r;
    case WG_BLOBTYPE:
      r = cmp(wg_decode_blob(ddb, e), wg_decode_blob_len(ddb, e), v.s.size());
      if (r.empty()) r = cmpx(wg_decode_blob_type(ddb, e), wg_decode_blob_type_len(ddb, e));
      if (r.empty()) r = cpy([&](char *b, gint n) { return wg_decode_blob_copy(ddb, e, b, n); }, v.s, false);
      return r;
  }
  return "unknown type";
}
static bool interned(const Val &v) {  // unique by design: everything kept in the string table
  if (v.type == WG_STRTYPE) return v.hasx || v.s.size() >= SHORTSTR_SIZE;
  return v.type == WG_URITYPE || v.type == WG_XMLLITERALTYPE || v.type == WG_BLOBTYPE;
}
static bool immediate(const Val &v) {
  if (v.type == WG_INTTYPE) return ((v.i << 3) >> 3) == v.i;
  return v.type == WG_NULLTYPE || (v.type >= WG_CHARTYPE && v.type != WG_ANONCONSTTYPE);
}

static vector<Val> family(bool q) {
  vector<Val> v;
  v.push_back(VX(WG_NULLTYPE, 0));
  std::set<long> is;
  for (int k = 0; k < 64; k++)
    for (long dlt = -2; dlt <= 2; dlt++) { is.insert((long)((1ull << k) + dlt)); is.insert(-(long)((1ull << k) + dlt)); }
  for (long i = -300; i <= 300; i++) is.insert(i);
  is.insert(std::numeric_limits<long>::min());
  is.insert(std::numeric_limits<long>::max());
  for (long i : is) v.push_back(VI(i));
  for (int e = -1074; e <= 1023; e++)
    for (double m : {1.0, 1.5, -1.0, 1.0000000000000002}) v.push_back(VD(std::ldexp(m, e)));
  for (double d : {0.0, -0.0, 0.1, -0.1, 1e308, -1e308, 1e-310, (double)INFINITY, (double)-INFINITY, 3.14159, 1.0 / 3}) v.push_back(VD(d));
  for (int c = -128; c < 256; c++) if (c < 128) v.push_back(VX(WG_CHARTYPE, c));
  for (long i = -8000000; i <= 8000000; i += 1) if (std::labs(i) < 300 || i % (q ? 99991 : 997) == 0 || std::labs(i) > 7999990) v.push_back(VF(i / 10000.0));
  for (long i : is) if (i >= -128 * 255 * 255 && i <= 128 * 255 * 255) v.push_back(VX(WG_DATETYPE, i));
  for (long i = 0; i <= 24 * 60 * 60 * 100; i += (q ? 997 : 13)) v.push_back(VX(WG_TIMETYPE, i));
  v.push_back(VX(WG_TIMETYPE, 24 * 60 * 60 * 100));
  for (long i : is) if (i >= 0 && i < (1l << 58)) v.push_back(VX(WG_VARTYPE, i));
  // every length around all the limits, all kinds, with and without extra parts
  int maxlen = q ? 300 : 600;
  for (int n = 0; n <= maxlen; n++) {
    string s(n, 'a'), t = s, u = s, nn = s;
    if (n) { t[n - 1] = 'b'; u[0] = '\xff'; nn[n / 2] = '\x01'; }
    std::set<string> ss = {s, t, u, nn};
    for (auto &y : ss) {
      v.push_back(VS(WG_STRTYPE, y));
      v.push_back(VS(WG_URITYPE, y));
      if (n <= 80 || n % 8 < 2) {
        v.push_back(VS(WG_STRTYPE, y, "en"));
        v.push_back(VS(WG_URITYPE, y, "http://p#"));
        v.push_back(VS(WG_XMLLITERALTYPE, y, "xsd:t"));
        v.push_back(VS(WG_BLOBTYPE, y.empty() ? string(1, '\0') : y, "bin"));
      }
    }
    if (n) {
      string z(n, '\0');
      v.push_back(VS(WG_BLOBTYPE, z, "zero"));
      z[n - 1] = 'z';
      v.push_back(VS(WG_BLOBTYPE, z, "zero"));
    }
    if (n <= 70) {
      v.push_back(VSX(WG_STRTYPE, "k", s));
      v.push_back(VSX(WG_URITYPE, "k", s));
      v.push_back(VSX(WG_URITYPE, t, s));
    }
  }
  for (long n : {1000, 1001, 4095, 4096, 8100, 8110, 8120, 8128, 9000, 20000, 65535, 70001}) {
    v.push_back(VS(WG_STRTYPE, string(n, 'q')));
    v.push_back(VS(WG_URITYPE, string(n, 'q')));
    v.push_back(VS(WG_BLOBTYPE, string(n, 'q'), "x"));
  }
  // same letters, different split between the parts
  for (auto t : {WG_STRTYPE, WG_URITYPE, WG_XMLLITERALTYPE})
    for (string w : {"ab", "abc", "aab", "aaaa", "abab", "http://x#y"})
      for (size_t k = 0; k <= w.size(); k++) {
        v.push_back(VSX(t, w.substr(k), w.substr(0, k)));
        if (k) v.push_back(VSX(t, w.substr(0, k), w.substr(k)));
      }
  // distinct values only
  std::set<string> seen;
  vector<Val> o;
  for (auto &x : v) {
    string k = std::to_string(x.type) + "|" + std::to_string(x.i) + "|" + string((char *)&x.d, 8) + "|" + x.s + "|" + (x.hasx ? "1" : "0") + x.x;
    if (seen.insert(k).second) o.push_back(x);
  }
  return o;
}

// store the whole family (in the given order, twice), then decode everything
static void store_all(Ctx &c, const vector<Val> &fam, int order, bool withkb) {
  size_t n = fam.size();
  vector<size_t> ord(n);
  for (size_t i = 0; i < n; i++) ord[i] = i;
  if (order == 1) std::reverse(ord.begin(), ord.end());
  if (order == 2) for (size_t i = 0; i < n; i++) ord[i] = (i * 7919) % n;
  if (order == 2 && n % 7919 == 0) return;
  void *kb = nullptr, *db;
  gint size = 60000000;
  vector<gint> kbenc(n, -1);
  if (withkb) {
    kb = wg_attach_local_database(size);
    for (size_t i = 0; i < n; i += 2) if (interned(fam[i])) kbenc[i] = enc(kb, fam[i]);
    db = wg_attach_local_database_with_kb(size, kb);
  } else db = wg_attach_local_database(size);
  if (!db) { fprintf(stderr, "CHECK ERROR: no database\n"); _exit(4); }
  void *ddb = withkb ? kb : db;  // offsets are relative to the knowledge base when there is one
  vector<gint> e1(n), e2(n);
  vector<char> kbcopy;
  if (kb) kbcopy.assign((char *)kb, (char *)kb + size);
  string tag = withkb ? "with a knowledge base: " : "";
  for (size_t i : ord) { Trace::set(tag + "encoding " + fam[i].name()); e1[i] = enc(db, fam[i]); }
  for (size_t i : ord) { Trace::set(tag + "encoding again " + fam[i].name()); e2[i] = enc(db, fam[i]); }
  std::unordered_map<gint, size_t> by;
  if (kb && memcmp(kbcopy.data(), kb, size)) {
    gint at = 0;
    int nd = 0;
    string ds;
    for (gint z = 0; z < size; z++) if (kbcopy[z] != ((char *)kb)[z]) { if (!nd++) at = z; if (nd < 20) ds += " " + std::to_string(z) + ":" + std::to_string((int)kbcopy[z]) + ">" + std::to_string((int)((char *)kb)[z]); }
    violation(c, tag + "kb written", "storing values into a database wrote into its knowledge base at offset " + std::to_string(at) + ", " + std::to_string(nd) + " bytes", {}, ds);
  }
  for (size_t i = 0; i < n; i++) {
    c.add("evaluations", 2);
    Trace::set(tag + "decoding " + fam[i].name());
    string r = dec(ddb, e1[i], fam[i]);
    if (r.empty()) r = dec(ddb, e2[i], fam[i]);
    if (!r.empty()) violation(c, tag + fam[i].name(), tag + fam[i].name() + " " + r + " after everything was stored", {}, "order " + std::to_string(order));
    if (interned(fam[i]) || immediate(fam[i])) {
      c.add("distinct_nontrivial");
      if (e1[i] != e2[i]) violation(c, tag + "twice " + fam[i].name(), tag + fam[i].name() + " is stored twice instead of being shared", {}, "");
      if (withkb && kbenc[i] != -1 && interned(fam[i]) && e1[i] != kbenc[i])
        violation(c, tag + "kb " + fam[i].name(), tag + fam[i].name() + " of the knowledge base is stored again", {}, "");
    }
    auto p = by.emplace(e1[i], i);
    if (!p.second) violation(c, tag + "same " + fam[i].name(), tag + fam[i].name() + " and " + fam[p.first->second].name() + " got the same encoding", {}, "");
  }
  wg_delete_local_database(db);
  if (kb) wg_delete_local_database(kb);
  c.sample(tag + fam[order].name());
}

// histories of storing and removing values whose hash chains collide
struct Intern : Model {
  string nm;
  vector<Val> pool;
  DbImage im;
  vector<gint> cur, scur;  // current encoding or -1
  Intern(const string &n, vector<Val> p) : nm(n), pool(p), im(2000000) {
    im.mark();
    cur.assign(pool.size(), -1);
  }
  string name() const override { return nm; }
  int nops() const override { return pool.size() * 2; }
  string opname(int op) const override { return (op < (int)pool.size() ? "store " : "remove ") + pool[op % pool.size()].name(); }
  void reset() override { im.reset(); cur.assign(pool.size(), -1); }
  void save() override { im.save(); scur = cur; }
  void restore() override { im.restore(); cur = scur; }
  bool apply(int op) override {
    int k = op % pool.size();
    if (op < (int)pool.size()) {
      gint e = enc(im.db, pool[k]);
      if (cur[k] != -1 && interned(pool[k]) && e != cur[k]) err = pool[k].name() + " is stored twice instead of being shared";
      if (cur[k] != -1 && !interned(pool[k])) return false;
      for (size_t j = 0; j < pool.size(); j++)
        if ((int)j != k && cur[j] != -1 && cur[j] == e) err = pool[k].name() + " got the encoding of " + pool[j].name();
      cur[k] = e;
      return true;
    }
    if (cur[k] == -1) return false;
    gint rc = wg_free_encoded(im.db, cur[k]);
    if (rc != 0) err = "removing " + pool[k].name() + " fails with " + std::to_string(rc);
    cur[k] = -1;
    // a text nobody but its last owner refers to goes with that owner
    if (pool[k].hasx)
      for (size_t j = 0; j < pool.size(); j++)
        if (pool[j].type == WG_STRTYPE && !pool[j].hasx && pool[j].s == pool[k].x && pool[j].s.size() >= SHORTSTR_SIZE && !extraref(j)) cur[j] = -1;
    return true;
  }
  string check() override {
    for (size_t k = 0; k < pool.size(); k++)
      if (cur[k] != -1) {
        string r = dec(im.db, cur[k], pool[k]);
        if (!r.empty()) return pool[k].name() + " " + r;
      }
    // the string table finds exactly the stored ones
    for (size_t k = 0; k < pool.size(); k++)
      if (interned(pool[k])) {
        string s = pool[k].s, x = pool[k].x;
        gint len = s.size() + (pool[k].type == WG_BLOBTYPE ? 0 : 1);
        auto &sh = im.h()->strhash_area_header;
        gint hd = dbfetch(im.db, sh.arraystart + sizeof(gint) * wg_hash_typedstr(im.db, &s[0], pool[k].hasx ? &x[0] : nullptr, pool[k].type, len));
        gint f = hd ? wg_find_strhash_bucket(im.db, &s[0], pool[k].hasx ? &x[0] : nullptr, pool[k].type, len, hd) : 0;
        if (cur[k] != -1 && f != cur[k]) return pool[k].name() + " is stored but not found in the string table";
        if (cur[k] == -1 && f != 0 && !extraref(k)) return pool[k].name() + " was removed but is still found in the string table";
      }
    return "";
  }
  bool extraref(size_t k) {  // still in use as the extra part of another one
    for (size_t j = 0; j < pool.size(); j++) if (cur[j] != -1 && pool[j].hasx && pool[j].x == pool[k].s && pool[k].type == WG_STRTYPE) return true;
    return false;
  }
  u64 fingerprint() override {
    u64 f = 1;
    for (auto e : cur) f = mix(f, (u64)e);
    db_memsegment_header *h = im.h();
    for (auto *ar : {&h->longstr_area_header}) {
      for (int b = 0; b < EXACTBUCKETS_NR + VARBUCKETS_NR + 2; b++) f = mix(f, ar->freebuckets[b]);
      // contents of the blocks that are in use: chains, counters
      for (size_t k = 0; k < pool.size(); k++)
        if (cur[k] != -1 && islongstr(cur[k])) {
          gint o = decode_longstr_offset(cur[k]);
          for (int w = 0; w < LONGSTR_HEADER_GINTS; w++) if (w != LONGSTR_RHASH_POS && w != LONGSTR_ID_POS) f = mix(f, dbfetch(im.db, o + w * sizeof(gint)));
        }
    }
    f = mix(f, h->shortstr_area_header.freelist);
    f = mix(f, h->listcell_area_header.freelist > 0);
    return f;
  }
};

static string collide(void *db, const string &base, gint bucket, const string &stem, int skip) {
  // a text stem+digits that falls into the same chain
  auto &sh = dbmemsegh(db)->strhash_area_header;
  for (int i = 0;; i++) {
    string s = stem + std::to_string(i);
    if ((gint)(wg_hash_typedstr(db, &s[0], nullptr, 0, s.size() + 1)) == bucket && skip-- == 0) return s;
    if (i > 20000000) { fprintf(stderr, "CHECK ERROR: no colliding text\n"); _exit(4); }
  }
  (void)sh;
}

static void c19(Driver &d) {
  quiet_stderr();
  auto fam = family(d.quick());
  d.texts["values"] = std::to_string(fam.size()) + " values of all types stored together twice in 3 orders, alone and on top of a knowledge base holding half of them";
  d.pfor(6, [&](u64 i, Ctx &c) { store_all(c, fam, i % 3, i >= 3); }, 1);
  // colliding pools
  void *t = wg_attach_local_database(2000000);
  string a = "base";
  gint b = wg_hash_typedstr(t, &a[0], nullptr, 0, a.size() + 1);
  string L = "a text that is longer than the limit of short ones ";
  vector<Val> p1 = {VS(WG_URITYPE, "base"), VS(WG_URITYPE, collide(t, a, b, "x", 0)), VS(WG_URITYPE, collide(t, a, b, "x", 1)),
                    VS(WG_STRTYPE, collide(t, a, b, L, 0)), VS(WG_STRTYPE, collide(t, a, b, L, 1)), VS(WG_XMLLITERALTYPE, "base", "t")};
  string l1 = collide(t, a, b, L, 0);
  vector<Val> p2 = {VS(WG_STRTYPE, l1), VS(WG_URITYPE, l1), VSX(WG_URITYPE, "k", l1), VSX(WG_URITYPE, "m", l1), VS(WG_URITYPE, "k"), VSX(WG_STRTYPE, "k", l1)};
  vector<Val> p3 = {VS(WG_URITYPE, "ab", "c"), VS(WG_URITYPE, "a", "bc"), VS(WG_URITYPE, "abc"), VS(WG_URITYPE, "abc", ""), VS(WG_STRTYPE, "abc", ""), VS(WG_BLOBTYPE, string("abc\0", 4), ""), VS(WG_STRTYPE, "abc")};
  vector<Val> p4 = {VI(1l << 62), VI(-(1l << 62)), VD(1.5), VD(-0.0), VS(WG_STRTYPE, string(31, 's')), VS(WG_STRTYPE, string(32, 's')), VS(WG_STRTYPE, "")};
  wg_delete_local_database(t);
  string tx;
  int dp = d.quick() ? 8 : 14;
  u64 cap = d.quick() ? 1000000 : 20000000;
  for (auto &pr : vector<std::pair<string, vector<Val>>>{{"same chain", p1}, {"shared extra parts", p2}, {"split parts", p3}, {"numbers and short texts", p4}}) {
    Intern m(pr.first, pr.second);
    u64 s0 = d.cnt["states"], tr = d.cnt["transitions"];
    auto r = bfs(d, m, dp, cap);
    (void)s0;
    d.cnt["evaluations"] += d.cnt["transitions"] - tr;
    tx += (tx.empty() ? "" : "; ") + pr.first + ": " + std::to_string(r.states) + " states, histories up to " + std::to_string(r.depth) + (r.fixpoint ? " (all reachable states)" : "");
    d.cnt["distinct_nontrivial"] += r.states;
  }
  d.texts["histories"] = tx;
}
static CheckReg r19("C19", c19);

// ------------------------------------------------------------------ C23
// natural order; 2 = only required to be consistent
static int natural(const Val &a, const Val &b) {
  if (a.type != b.type) return 2;
  auto sg = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
  switch (a.type) {
    case WG_NULLTYPE: return 0;
    case WG_INTTYPE: case WG_CHARTYPE: case WG_DATETYPE: case WG_TIMETYPE: case WG_VARTYPE:
      if (a.type == WG_CHARTYPE) return sg((unsigned char)a.i, (unsigned char)b.i);
      return sg(a.i, b.i);
    case WG_DOUBLETYPE: case WG_FIXPOINTTYPE: return sg(a.d, b.d);
    case WG_STRTYPE: { int r = strcmp(a.s.c_str(), b.s.c_str()); return sg(r, 0); }
    case WG_URITYPE: case WG_XMLLITERALTYPE: {
      int r = strcmp(a.x.c_str(), b.x.c_str());
      if (!r) r = strcmp(a.s.c_str(), b.s.c_str());
      return sg(r, 0);
    }
    case WG_BLOBTYPE: {
      int r = memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size()));
      if (!r) r = sg(a.s.size(), b.s.size());
      return sg(r, 0);
    }
  }
  return 2;
}
static void c23(Driver &d) {
  quiet_stderr();
  vector<Val> v;
  v.push_back(VX(WG_NULLTYPE, 0));
  for (int k : {0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, 47, 58, 59, 60, 61, 62, 63})
    for (long x : {-1l, 0l, 1l}) { v.push_back(VI((long)((1ull << k) + x))); v.push_back(VI(-(long)((1ull << k) + x))); }
  for (double x : {0.0, 1.0, 1.5, 0.1, 1e300, 1e-300, 5e-324, 2147483648.0, 4294967296.0, 9007199254740993.0, 1.0000000000000002, (double)INFINITY}) { v.push_back(VD(x)); v.push_back(VD(-x)); }
  for (int c = -128; c < 128; c += 5) v.push_back(VX(WG_CHARTYPE, c));
  v.push_back(VX(WG_CHARTYPE, 0));
  v.push_back(VX(WG_CHARTYPE, -1));
  for (double x : {0.0, 0.0001, 0.5, 1.0, 1.0001, 99.9999, 100.0, 799.9999, 800.0}) { v.push_back(VF(x)); v.push_back(VF(-x)); }
  for (long x : {0l, 1l, 255l, 256l, 65535l, 730000l, 730001l, 8000000l}) { v.push_back(VX(WG_DATETYPE, x)); v.push_back(VX(WG_DATETYPE, -x)); v.push_back(VX(WG_TIMETYPE, x)); v.push_back(VX(WG_VARTYPE, x)); }
  vector<string> ss = {"", "a", "b", "aa", "ab", "A", "\x01", "\x7f", "\x80", "\xff", "a\xff", string(31, 'a'), string(32, 'a'), string(31, 'a') + "b", string(33, 'a'), string(200, 'a'), string(199, 'a') + "b"};
  for (auto &s : ss) {
    v.push_back(VS(WG_STRTYPE, s));
    v.push_back(VS(WG_STRTYPE, s, "en"));
    v.push_back(VS(WG_URITYPE, s));
    v.push_back(VS(WG_URITYPE, s, "p"));
    v.push_back(VS(WG_URITYPE, s, ""));
    v.push_back(VS(WG_URITYPE, "k", s.c_str()));
    v.push_back(VS(WG_XMLLITERALTYPE, s, "t"));
    v.push_back(VS(WG_XMLLITERALTYPE, "k", s.c_str()));
    if (!s.empty()) v.push_back(VS(WG_BLOBTYPE, s, "b"));
  }
  for (string s : {string("a\0", 2), string("a\0b", 3), string("\0", 1), string("\0\0", 2), string("a\0a", 3)}) v.push_back(VS(WG_BLOBTYPE, s, "b"));
  {
    vector<Val> o;
    for (auto &x : v) {
      bool dup = false;
      for (auto &y : o) if (x == y) dup = true;
      if (!dup) o.push_back(x);
    }
    v = o;
  }
  void *db = wg_attach_local_database(20000000);
  size_t n0 = v.size();
  vector<gint> e;
  vector<string> nm;
  for (auto &x : v) { e.push_back(enc(db, x)); nm.push_back(x.name()); }
  // second copies of the values that are not shared: must compare equal
  vector<std::pair<size_t, size_t>> same;
  for (size_t i = 0; i < n0; i++)
    if (!immediate(v[i])) { gint f = enc(db, v[i]); if (f != e[i]) { same.push_back({i, e.size()}); e.push_back(f); nm.push_back(v[i].name() + "'"); } }
  size_t nv = e.size();
  // records, nested to depth 9, of equal and different contents and lengths
  vector<gint> basee = {e[0], enc(db, VI(1)), enc(db, VI(2)), enc(db, VS(WG_STRTYPE, "a"))};
  vector<gint> recs;
  auto mk = [&](const vector<gint> &f) {
    void *r = wg_create_record(db, f.size());
    for (size_t i = 0; i < f.size(); i++) wg_set_new_field(db, r, i, f[i]);
    gint x = wg_encode_record(db, r);
    recs.push_back(x);
    return x;
  };
  std::map<gint, string> rn;
  for (size_t i = 0; i < 4; i++) {
    rn[mk({basee[i]})] = "rec(" + std::to_string(i) + ")";
    for (size_t j = 0; j < 4; j++) rn[mk({basee[i], basee[j]})] = "rec(" + std::to_string(i) + "," + std::to_string(j) + ")";
  }
  rn[mk({basee[1]})] = "rec(1)'";
  rn[mk({basee[1], basee[2]})] = "rec(1,2)'";
  for (int k = 0; k < 3; k++) {  // chains of nested records over different leaves (1, 1 again, 2)
    gint x = mk({basee[k < 2 ? 1 : 2]});
    rn[x] = "leaf" + std::to_string(k);
    for (int dpt = 1; dpt <= 9; dpt++) { x = mk({x, basee[1]}); rn[x] = "nest" + std::to_string(dpt) + "." + std::to_string(k); }
  }
  for (auto r : recs) { e.push_back(r); nm.push_back(rn[r]); }
  size_t n = e.size();
  vector<signed char> m(n * n);
  vector<vector<signed char>> bydepth;
  d.texts["values"] = std::to_string(nv) + " values of all types and " + std::to_string(recs.size()) + " records nested to depth 9; all ordered pairs and triples, record depths 0, 1 and " + std::to_string(WG_COMPARE_REC_DEPTH);
  for (int depth : {WG_COMPARE_REC_DEPTH, 0, 1}) {
    // all pairs first, in a child so that a crash is reported
    signed char *sh = (signed char *)mmap(nullptr, n * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    d.pfor(n, [&](u64 i, Ctx &c) {
      for (size_t j = 0; j < n; j++) {
        c.add("evaluations");
        Trace::set("comparing " + nm[i] + " with " + nm[j]);
        Trace::limit(20);
        gint r = e[i] == e[j] ? WG_EQUAL : wg_compare(db, e[i], e[j], depth);
        if (r != WG_EQUAL && r != WG_GREATER && r != WG_LESSTHAN) violation(c, nm[i] + "~" + nm[j], "comparison of " + nm[i] + " with " + nm[j] + " gives " + std::to_string(r), {}, "");
        sh[i * n + j] = r;
      }
      Trace::limit(0);
    });
    memcpy(m.data(), sh, n * n);
    munmap(sh, n * n);
    auto at = [&](size_t i, size_t j) { return (int)m[i * n + j]; };
    d.pfor(n, [&](u64 i, Ctx &c) {
      string dp = " (record depth " + std::to_string(depth) + ")";
      for (size_t j = 0; j < n; j++) {
        if (at(i, j) != -at(j, i)) violation(c, nm[i] + "~" + nm[j], "comparing " + nm[i] + " with " + nm[j] + " gives " + std::to_string(at(i, j)) + " but the other way round " + std::to_string(at(j, i)) + dp, {}, "");
        if (i < n0 && j < n0) {
          int w = natural(v[i], v[j]);
          if (w != 2 && w != at(i, j)) violation(c, nm[i] + "~" + nm[j], "comparing " + nm[i] + " with " + nm[j] + " gives " + std::to_string(at(i, j)) + ", not " + std::to_string(w), {}, "");
          if (w == 2 && at(i, j) == 0) violation(c, nm[i] + "~" + nm[j], nm[i] + " and " + nm[j] + " of different types compare equal", {}, "");
        }
        for (size_t k = 0; k < n; k++) {
          c.add("triples");
          if (at(i, j) <= 0 && at(j, k) <= 0 && at(i, k) != std::min(at(i, j), at(j, k)) && !(at(i, j) == 0 && at(j, k) == 0 && at(i, k) == 0))
            violation(c, nm[i] + "<" + nm[j] + "<" + nm[k], "order is not transitive on " + nm[i] + " " + nm[j] + " " + nm[k] + dp, {}, "");
        }
      }
      c.sample(nm[i] + " against everything");
    });
    for (auto &s : same) if (at(s.first, s.second) != 0) d.add_violation_json(viol_json(nm[s.first] + "~copy", "two stored copies of " + nm[s.first] + " do not compare equal", {}, ""));
    // records: contents decide while the depth lasts
    if (depth == WG_COMPARE_REC_DEPTH) {
      auto ix = [&](const string &s) { for (size_t i = nv; i < n; i++) if (nm[i] == s) return i; fprintf(stderr, "CHECK ERROR %s\n", s.c_str()); exit(4); };
      auto want = [&](const string &a, const string &b, int w) {
        if (at(ix(a), ix(b)) != w) d.add_violation_json(viol_json(a + "~" + b, "comparing the records " + a + " and " + b + " gives " + std::to_string(at(ix(a), ix(b))) + ", not " + std::to_string(w), {}, ""));
      };
      want("rec(1)", "rec(1)'", 0);
      want("rec(1,2)", "rec(1,2)'", 0);
      want("rec(1)", "rec(2)", -1);
      want("rec(1,2)", "rec(2,1)", -1);
      want("rec(2,1)", "rec(2,2)", -1);
      want("rec(0)", "rec(1)", -1);
      for (int k = 1; k < WG_COMPARE_REC_DEPTH; k++) { want("nest" + std::to_string(k) + ".0", "nest" + std::to_string(k) + ".1", 0); want("nest" + std::to_string(k) + ".0", "nest" + std::to_string(k) + ".2", -1); }
    }
  }
  d.cnt["distinct_nontrivial"] = n * (n - 1);
  wg_delete_local_database(db);
}
static CheckReg r23("C23", c23);

// ------------------------------------------------------------------ C24
static int mdays(int y, int m) {
  static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : t[m - 1];
}
static void c24(Driver &d) {
  quiet_stderr();
  void *db = wg_attach_local_database(2000000);
  int ymax = 9999;
  // every day of years 1..9999
  d.pfor(ymax, [&](u64 yi, Ctx &c) {
    int y = yi + 1;
    char w[64], key[64], b[64];
    long prev = -1;
    Trace::limit(60);
    for (int m = 1; m <= 12; m++)
      for (int dy = 1; dy <= mdays(y, m); dy++) {
        c.add("evaluations");
        snprintf(key, 64, "%04d-%02d-%02d", y, m, dy);
        Trace::set(key);
        int s = wg_ymd_to_date(db, y, m, dy);
        auto bad = [&](const string &what) { violation(c, key, string("date ") + key + ": " + what, {}, ""); };
        // proleptic Gregorian day number, day 1 = 0001-01-01
        long yy = y - 1, want = 365 * yy + yy / 4 - yy / 100 + yy / 400 + dy;
        for (int k = 1; k < m; k++) want += mdays(y, k);
        if (s != want) { bad("day number " + std::to_string(s) + " instead of " + std::to_string(want)); continue; }
        if (prev >= 0 && s != prev + 1) bad("is not the day after the day before");
        prev = s;
        int a, e, f;
        wg_date_to_ymd(db, s, &a, &e, &f);
        if (a != y || e != m || f != dy) bad("turns into " + std::to_string(a) + "-" + std::to_string(e) + "-" + std::to_string(f));
        gint en = wg_encode_date(db, s);
        if (wg_decode_date(db, en) != s || wg_get_encoded_type(db, en) != WG_DATETYPE) bad("changes when encoded");
        memset(b, 'Z', 64);
        wg_strf_iso_datetime(db, s, 0, b);
        snprintf(w, 64, "%sT00:00:00.00", key);
        if (strcmp(b, w)) bad(string("is written as ") + string(b, 24));
        if (wg_strp_iso_date(db, b) != s || wg_strp_iso_date(db, key) != s) bad("is read back as another date");
        c.add("distinct_nontrivial");
      }
    Trace::limit(0);
    if (y == 2024) c.sample("2024-02-29");
  });
  // every hundredth of a second of the day
  d.pfor(24 * 60, [&](u64 mi, Ctx &c) {
    char w[64], key[64], b[64];
    for (int sec = 0; sec < 60; sec++)
      for (int p = 0; p < 100; p++) {
        int h = mi / 60, m = mi % 60;
        c.add("evaluations");
        c.add("distinct_nontrivial");
        snprintf(key, 64, "%02d:%02d:%02d.%02d", h, m, sec, p);
        Trace::set(key);
        auto bad = [&](const string &what) { violation(c, key, string("time ") + key + ": " + what, {}, ""); };
        int s = wg_hms_to_time(db, h, m, sec, p);
        if (s != ((h * 60 + m) * 60 + sec) * 100 + p) { bad("number " + std::to_string(s)); continue; }
        int a, e, f, g;
        wg_time_to_hms(db, s, &a, &e, &f, &g);
        if (a != h || e != m || f != sec || g != p) bad("changes when split into parts");
        gint en = wg_encode_time(db, s);
        if (wg_decode_time(db, en) != s || wg_get_encoded_type(db, en) != WG_TIMETYPE) bad("changes when encoded");
        wg_strf_iso_datetime(db, 738000, s, b);
        snprintf(w, 64, "T%s", key);
        if (strcmp(b + 10, w)) bad(string("is written as ") + b);
        if (wg_strp_iso_time(db, b + 11) != s) bad("is read back as another time");
        if (p == 0 && wg_strp_iso_time(db, (snprintf(w, 64, "%02d:%02d:%02d", h, m, sec), w)) != s) bad("is read back as another time without a fraction");
      }
    if (mi == 1439) c.sample(key);
  });
  // values and texts that are refused
  d.pfor(1, [&](u64, Ctx &c) {
    auto no = [&](int r, const string &what) {
      c.add("evaluations");
      c.add("distinct_nontrivial");
      if (r != -1) violation(c, what, what + " is accepted", {}, "");
    };
    vector<int> yr = {-2, -1, 1, 1999, 2000}, big = {-100, -1, 0, 1, 12, 13, 28, 31, 32, 100};
    for (int y : yr)
      for (int m : big)
        for (int dd : big) {
          string k = std::to_string(y) + "-" + std::to_string(m) + "-" + std::to_string(dd);
          Trace::set(k);
          if (y < 0 || m < 1 || m > 12 || dd < 1 || dd > 31) {
            no(wg_ymd_to_date(db, y, m, dd), "the date " + k);
            char b[64];
            snprintf(b, 64, "%04d-%02d-%02d", y, m, dd);
            if (y >= 0 && m >= 0 && m < 100 && dd >= 0 && dd < 100) no(wg_strp_iso_date(db, b), string("the date text ") + b);
          }
        }
    vector<int> tv = {-100, -1, 0, 1, 24, 25, 60, 61, 99, 100};
    for (int h : tv) for (int m : tv) for (int s : tv) for (int p : tv) {
      string k = std::to_string(h) + ":" + std::to_string(m) + ":" + std::to_string(s) + "." + std::to_string(p);
      Trace::set(k);
      if (h < 0 || h > 24 || m < 0 || m > 60 || s < 0 || s > 60 || p < 0 || p > 99) no(wg_hms_to_time(db, h, m, s, p), "the time " + k);
      if (h >= 0 && m >= 0 && s >= 0 && h < 100 && m < 100 && s < 100 && (h > 24 || m > 60 || s > 60)) {
        char b[64];
        snprintf(b, 64, "%02d:%02d:%02d", h, m, s);
        no(wg_strp_iso_time(db, b), string("the time text ") + b);
      }
    }
    // every replacement of a separator or of a leading digit by another character
    string dt = "2024-02-29", tt = "12:34:56";
    for (auto &base : {dt, tt})
      for (size_t i = 0; i < base.size(); i++) {
        bool lead = i == 0 || !isdigit(base[i - 1]);
        for (int ch = 1; ch < 256; ch++) {
          string x = base;
          x[i] = (char)ch;
          Trace::set(x);
          bool sep = !isdigit(base[i]);
          if (sep ? (ch != base[i] && !isdigit(ch)) : (lead && !isdigit(ch) && !isspace(ch) && ch != '+' && ch != '-'))
            no(&base == &dt || base == dt ? wg_strp_iso_date(db, &x[0]) : wg_strp_iso_time(db, &x[0]), "the text " + x);
        }
        string cut = base.substr(0, i);
        if (cut.size() < base.size() - 1) no(base == dt ? wg_strp_iso_date(db, &cut[0]) : wg_strp_iso_time(db, &cut[0]), "the text " + cut);
      }
  });
  d.texts["bounds"] = "all days of years 1 to 9999, all hundredths of a second of a day, all refused field combinations over boundary values, all one-character damages of a text";
  wg_delete_local_database(db);
}
static CheckReg r24("C24", c24);
