// C18: dumps of the database: complete ones load back, all others are refused.
#include "kv.hpp"
#include <dirent.h>
#include <errno.h>

extern "C" {
extern char gkv_shm_dir[256];
extern int gkv_shm_rdonly, gkv_shm_rw;
// faults: the n-th call (from 1) of each of these fails while armed
static int f_on, f_nr, f_seen;
static const char *f_hit;
static int fault(const char *w) {
  if (!f_on) return 0;
  if (++f_seen != f_nr) return 0;
  f_hit = w;
  errno = EIO;
  return 1;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *a, const char *b) { return fault("fopen") ? nullptr : __real_fopen(a, b); }
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) {
  if (fault("fread")) {
    int ch = fgetc(f);
    if (ch == EOF) f_hit = nullptr; else ungetc(ch, f);  // nothing was left to read
    return 0;
  }
  return __real_fread(p, a, b, f);
}
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) {
  if (fault("fwrite")) { __real_fwrite(p, 1, a * b / 2, f); return 0; }
  return __real_fwrite(p, a, b, f);
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) {
  if (fault("fclose")) { __real_fclose(f); errno = EIO; return EOF; }
  return __real_fclose(f);
}
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { return fault("malloc") ? nullptr : __real_malloc(n); }
// what another user of the database does just before our lock is granted and just after it is released
static std::function<void()> at_lock, at_unlock;
gint __real_db_tfqueue_rlock(void *, gint);
gint __wrap_db_tfqueue_rlock(void *d, gint t) { if (auto f = std::move(at_lock); f) { at_lock = nullptr; f(); } return __real_db_tfqueue_rlock(d, t); }
gint __real_db_tfqueue_rulock(void *, gint);
gint __wrap_db_tfqueue_rulock(void *d, gint l) { gint r = __real_db_tfqueue_rulock(d, l); if (auto f = std::move(at_unlock); f) { at_unlock = nullptr; f(); } return r; }
}

namespace {
string fieldtext(void *db, gint e, int deep) {
  char b[256];
  gint t = wg_get_encoded_type(db, e);
  string s = std::to_string(t) + ":";
  switch (t) {
    case WG_NULLTYPE: return s;
    case WG_RECORDTYPE: {
      void *r = wg_decode_record(db, e);
      gint n = wg_get_record_len(db, r);
      s += "{" + std::to_string(n);
      if (deep > 0) for (gint i = 0; i < n; i++) s += " " + fieldtext(db, wg_get_field(db, r, i), deep - 1);
      return s + "}";
    }
    case WG_INTTYPE: return s + std::to_string(wg_decode_int(db, e));
    case WG_DOUBLETYPE: snprintf(b, 256, "%.17g", wg_decode_double(db, e)); return s + b;
    case WG_FIXPOINTTYPE: snprintf(b, 256, "%.17g", wg_decode_fixpoint(db, e)); return s + b;
    case WG_CHARTYPE: return s + string(1, wg_decode_char(db, e));
    case WG_DATETYPE: return s + std::to_string(wg_decode_date(db, e));
    case WG_TIMETYPE: return s + std::to_string(wg_decode_time(db, e));
    case WG_STRTYPE: { s += string(wg_decode_str(db, e)); char *l = wg_decode_str_lang(db, e); return s + "@" + (l ? l : "-"); }
    case WG_XMLLITERALTYPE: { s += string(wg_decode_xmlliteral(db, e)); char *l = wg_decode_xmlliteral_xsdtype(db, e); return s + "@" + (l ? l : "-"); }
    case WG_URITYPE: { s += string(wg_decode_uri(db, e)); char *l = wg_decode_uri_prefix(db, e); return s + "@" + (l ? l : "-"); }
    case WG_BLOBTYPE: { gint n = wg_decode_blob_len(db, e); s += string(wg_decode_blob(db, e), n); char *l = wg_decode_blob_type(db, e); return s + "@" + (l ? l : "-"); }
    case WG_VARTYPE: return s + std::to_string(wg_decode_var(db, e));
    default: return s + "?";
  }
}
string content(void *db) {
  string s;
  u64 n = 0;
  for (void *r = wg_get_first_record(db); r && n < 100000; r = wg_get_next_record(db, r), n++) {
    gint k = wg_get_record_len(db, r);
    for (gint i = 0; i < k; i++) s += fieldtext(db, wg_get_field(db, r, i), 2) + "|";
    s += "\n";
  }
  // the indexes: rows found by column 0 in order
  gint cnt = 0;
  gint *ix = (gint *)wg_get_all_indexes(db, &cnt);
  s += "indexes " + std::to_string(cnt) + "\n";
  if (ix) free(ix);
  for (int from : {0, 3}) {
    wg_query_arg a[1];
    a[0].column = 0;
    a[0].cond = WG_COND_GTEQUAL;
    a[0].value = wg_encode_query_param_int(db, from);
    wg_query *q = wg_make_query(db, nullptr, 0, a, 1);
    if (!q) { s += "no query\n"; continue; }
    s += "query";
    while (void *r = wg_fetch(db, q)) s += " " + fieldtext(db, wg_get_field(db, r, 0), 0);
    s += "\n";
    wg_free_query(db, q);
    wg_free_query_param(db, a[0].value);
  }
  return s;
}
const int NKIND = 6;
string kindname(int k) {
  return vector<string>{"empty", "one record", "all value types", "indexes and removed records", "400 records over several areas", "long strings and lists beyond the first areas"}[k];
}
void str(void *db, void *r, int f, const string &s) { string t = s; wg_set_new_field(db, r, f, wg_encode_str(db, &t[0], nullptr)); }
void fill(void *db, int k) {
  char A[] = "abc", L[] = "en", U[] = "http://example.org/x#", P[] = "ns", X[] = "<a>1</a>", T[] = "xsd:t";
  string big(3000, 'x');
  if (k == 1) { void *r = wg_create_record(db, 1); wg_set_new_field(db, r, 0, wg_encode_int(db, 7)); }
  if (k == 2) {
    void *r0 = wg_create_record(db, 2);
    wg_set_new_field(db, r0, 0, wg_encode_int(db, 5));
    str(db, r0, 1, "hello");
    for (int v = 0; v < 2; v++) {
      void *r = wg_create_record(db, 16);
      int f = 0;
      wg_set_new_field(db, r, f++, wg_encode_int(db, v + 1));
      wg_set_new_field(db, r, f++, wg_encode_int(db, 1L << 60));
      wg_set_new_field(db, r, f++, wg_encode_double(db, 3.25 + v));
      wg_set_new_field(db, r, f++, wg_encode_str(db, A, nullptr));
      wg_set_new_field(db, r, f++, wg_encode_str(db, A, L));
      str(db, r, f++, big + std::to_string(v));
      wg_set_new_field(db, r, f++, wg_encode_uri(db, U, P));
      wg_set_new_field(db, r, f++, wg_encode_xmlliteral(db, X, T));
      wg_set_new_field(db, r, f++, wg_encode_blob(db, &big[0], T, 600));
      wg_set_new_field(db, r, f++, wg_encode_char(db, 'c'));
      wg_set_new_field(db, r, f++, wg_encode_fixpoint(db, 1.5));
      wg_set_new_field(db, r, f++, wg_encode_date(db, 700000));
      wg_set_new_field(db, r, f++, wg_encode_time(db, 4711));
      wg_set_new_field(db, r, f++, wg_encode_var(db, 3));
      wg_set_new_field(db, r, f++, wg_encode_record(db, r0));
      wg_set_new_field(db, r, f++, wg_encode_null(db, nullptr));
    }
  }
  if (k == 3) {
    wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, nullptr, 0);
    wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, nullptr, 0);
    gint c2[2] = {0, 1};
    wg_create_multi_index(db, c2, 2, WG_INDEX_TYPE_HASH, nullptr, 0);
    vector<void *> rs;
    for (int i = 0; i < 30; i++) {
      void *r = wg_create_record(db, 3);
      wg_set_new_field(db, r, 0, wg_encode_int(db, i * 7 % 11));
      str(db, r, 1, "s" + std::to_string(i % 5));
      wg_set_new_field(db, r, 2, wg_encode_double(db, i / 8.0));
      wg_index_add_rec(db, r);
      rs.push_back(r);
    }
    for (int i = 0; i < 30; i += 3) wg_delete_record(db, rs[i]);
  }
  if (k == 4)
    for (int i = 0; i < 400; i++) {
      void *r = wg_create_record(db, 5);
      wg_set_new_field(db, r, 0, wg_encode_int(db, i % 6));
      wg_set_new_field(db, r, 1, wg_encode_double(db, i * 0.5));
      str(db, r, 2, "name" + std::to_string(i));
      wg_set_new_field(db, r, 3, wg_encode_int(db, (1L << 60) + i));
    }
  if (k == 5)
    for (int i = 0; i < 60; i++) {
      void *r = wg_create_record(db, 40);
      wg_set_new_field(db, r, 0, wg_encode_int(db, i % 6));
      str(db, r, 1, string(1000 + i * 40, 'a' + i % 26));
    }
}
vector<char> slurp(const string &p) {
  vector<char> v;
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return v;
  struct stat st;
  fstat(fd, &st);
  v.resize(st.st_size);
  if (pread(fd, v.data(), v.size(), 0) < 0) v.clear();
  close(fd);
  return v;
}
void spit(const string &p, const vector<char> &v) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
  if (write(fd, v.data(), v.size()) < 0) {}
  close(fd);
}
struct Base { void *db; vector<char> mem, dump; string cont, file; gint size; };
Base mk(const string &file, int k, gint size) {
  Base b;
  b.size = size;
  b.file = file;
  b.db = wg_attach_local_database(size);
  if (!b.db) { fprintf(stderr, "CHECK ERROR: no database\n"); exit(4); }
  fill(b.db, k);
  b.cont = content(b.db);
  b.mem.assign((char *)b.db, (char *)b.db + dbmemsegh(b.db)->free);
  return b;
}
bool chk(const char *f, gint *mn = nullptr, gint *mx = nullptr) {
  gint a = 0, b = 0;
  gint r = wg_check_dump(nullptr, (char *)f, &a, &b);
  if (mn) *mn = a;
  if (mx) *mx = b;
  return r == 0;
}
vector<char> area(void *db) { return vector<char>((char *)db, (char *)db + dbmemsegh(db)->free); }
// the parts that a load sets anew
void blank(vector<char> &v) {
  db_memsegment_header *h = (db_memsegment_header *)v.data();
  h->size = 0;
  h->checksum = 0;
  h->key = 0;
  h->initialadr = 0;
}
const gint SZ = 210000;

void c18(Driver &d) {
  quiet_stderr();
  bool q = d.quick();
  signal(SIGXFSZ, SIG_IGN);
  string dir = d.scratch;
  auto fname = [&](const string &t) { return dir + "/" + t + std::to_string(getpid()); };
  // 1. round trips into databases of several sizes and states
  const vector<gint> sizes = {SZ, 400000, 1000000};
  struct RT { int k; gint from, to; int over; };
  vector<RT> rt;
  for (int k = 0; k < NKIND; k++)
    for (gint a : {SZ, (gint)1000000, (gint)3000000})
      for (gint to : {(gint)-1, (gint)0, (gint)64, SZ, (gint)500000, (gint)1000000, (gint)5000000})
        for (int over = 0; over < NKIND; over++) {
          if ((k == 4 || k == 5 || over >= 4) && a < 1000000) continue;
          rt.push_back({k, a, to, over});
        }
  d.pfor(rt.size(), [&](u64 i, Ctx &c) {
    RT t = rt[i];
    string f = fname("rt"), nm = kindname(t.k) + " in " + std::to_string(t.from) + " bytes into " + std::to_string(t.to) + " holding " + kindname(t.over);
    Trace::set(nm);
    Trace::limit(60);
    Base b = mk(f, t.k, t.from);
    if (wg_dump(b.db, &f[0])) { violation(c, "dump " + nm, "wg_dump fails: " + nm, {}, ""); return; }
    if (area(b.db) != b.mem) { // the lock area changes
      vector<char> m = area(b.db);
      if (content(b.db) != b.cont) violation(c, "dumpchg " + nm, "wg_dump changes the database: " + nm, {}, "");
    }
    gint mn, mx;
    if (!chk(f.c_str(), &mn, &mx) || mn != (gint)b.mem.size() || mx != t.from) { violation(c, "check " + nm, "a complete dump is refused or its sizes are wrong: " + nm, {}, ""); return; }
    c.add("evaluations");
    gint to = t.to <= 64 ? mn + t.to : t.to;
    void *g = wg_attach_local_database(std::max<gint>(to, 200000));
    if (g) {
      dbmemsegh(g)->size = std::max<gint>(to, 1);  // the size that counts for the load
      if (to >= 400000 || t.over < 4) { dbmemsegh(g)->size = std::max<gint>(to, 200000); fill(g, t.over); dbmemsegh(g)->size = to; }
      string before = content(g);
      vector<char> m0((char *)g, (char *)g + dbmemsegh(g)->free);
      gint r = wg_import_dump(g, &f[0]);
      if (to < mn) {
        if (r != -1) violation(c, "small " + nm, "a dump larger than the database is not refused: " + nm, {}, "");
        else if (content(g) != before) violation(c, "smallchg " + nm, "a refused dump changes the database: " + nm, {}, "");
        c.add("refused");
      } else {
        c.add("distinct_nontrivial");
        if (r) violation(c, "import " + nm, "a complete dump does not load: " + nm, {}, "");
        else {
          string now = content(g);
          if (now != b.cont) violation(c, "content " + nm, "the loaded database differs: " + nm, {}, now.substr(0, 1500) + "\n---\n" + b.cont.substr(0, 1500));
          vector<char> x = area(b.db), y = area(g);
          blank(x); blank(y);
          if (x != y) violation(c, "bytes " + nm, "the loaded memory differs: " + nm, {}, "");
          if (dbmemsegh(g)->size != to) violation(c, "size " + nm, "the loaded database has the size of the dumped one: " + nm, {}, "");
          // it can be used: the same string is shared, new records fit, locks are free
          gint l = wg_start_write(g);
          if (!l) violation(c, "lock " + nm, "the loaded database is locked: " + nm, {}, "");
          else wg_end_write(g, l);
          if (to > mn + 100000 || to == t.from) {
            void *r2 = wg_create_record(g, 2);
            if (r2) {
              wg_set_new_field(g, r2, 0, wg_encode_int(g, 1));
              str(g, r2, 1, "hello");
              string w = content(g);
              void *r3 = wg_create_record(b.db, 2);
              if (r3) {
                wg_set_new_field(b.db, r3, 0, wg_encode_int(b.db, 1));
                str(b.db, r3, 1, "hello");
                if (w != content(b.db)) violation(c, "use " + nm, "a record added after loading reads differently: " + nm, {}, "");
                if (t.from == to && ptrtooffset(g, r2) != ptrtooffset(b.db, r3)) violation(c, "useoff " + nm, "the loaded database allocates differently: " + nm, {}, "");
              }
            }
          }
        }
      }
      wg_delete_local_database(g);
    }
    wg_delete_local_database(b.db);
    unlink(f.c_str());
    Trace::limit(0);
    Trace::set("");
  }, 4);
  // 2. every truncation and extension, every corrupted byte
  struct Dm { string file; vector<char> v; };
  vector<int> kinds = q ? vector<int>{2} : vector<int>{0, 2, 3};
  for (int k : kinds) {
    string f0 = dir + "/base" + std::to_string(k);
    Base b = mk(f0, k, SZ);
    if (wg_dump(b.db, &f0[0])) { fprintf(stderr, "CHECK ERROR: no dump\n"); exit(4); }
    vector<char> v = slurp(f0);
    u64 n = v.size();
    vector<int> masks = q ? vector<int>{1, 0x80, 0xff} : vector<int>{1, 2, 4, 8, 16, 32, 64, 0x80, 0xff, 0x55};
    auto refuse = [&](Ctx &c, const string &f, const string &what) {
      c.add("evaluations");
      gint a, bb;
      gint r = wg_check_dump(nullptr, (char *)f.c_str(), &a, &bb);
      if (r == 0) violation(c, "accepted " + what, "accepted: a dump (" + kindname(k) + ") that is " + what, {}, "");
      else c.add("distinct_nontrivial");
    };
    u64 blk = 512, nb = (n + blk - 1) / blk;
    d.pfor(nb, [&](u64 i, Ctx &c) {
      string f = fname("cor");
      spit(f, v);
      int fd = open(f.c_str(), O_RDWR);
      for (u64 p = i * blk; p < std::min(n, (i + 1) * blk); p++) {
        vector<int> ms = masks;
        if (p < 120) { ms.clear(); for (int m = 1; m < 256; m++) ms.push_back(m); }
        for (int m : ms) {
          char x = v[p] ^ m;
          Trace::set("byte " + std::to_string(p) + " changed by " + std::to_string(m));
          if (pwrite(fd, &x, 1, p) < 0) {}
          refuse(c, f, "changed in byte " + std::to_string(p) + " by " + std::to_string(m));
        }
        if (pwrite(fd, &v[p], 1, p) < 0) {}
        if (p + 1 < n && v[p] != v[p + 1] && (!q || p % 4 == 0 || p < 4096)) {
          char x[2] = {v[p + 1], v[p]};
          if (pwrite(fd, x, 2, p) < 0) {}
          refuse(c, f, "changed by swapping bytes " + std::to_string(p) + " and the next");
          if (pwrite(fd, &v[p], 2, p) < 0) {}
        }
      }
      if (!chk(f.c_str())) violation(c, "good", "a good dump is refused", {}, "");
      close(fd);
      unlink(f.c_str());
    }, 2);
    d.pfor(nb, [&](u64 i, Ctx &c) {
      string f = fname("tr");
      spit(f, v);
      u64 lo = i * blk, hi = std::min(n, (i + 1) * blk);
      for (u64 p = hi; p-- > lo;) {
        if (truncate(f.c_str(), p)) {}
        Trace::set("truncated to " + std::to_string(p));
        refuse(c, f, "truncated to " + std::to_string(p) + " of " + std::to_string(n) + " bytes");
      }
      unlink(f.c_str());
    }, 2);
    d.pfor(q ? 300 : 17000, [&](u64 i, Ctx &c) {
      string f = fname("ex");
      for (int ch : {0, 120}) {
        vector<char> w = v;
        w.insert(w.end(), i + 1, (char)ch);
        spit(f, w);
        refuse(c, f, "extended by " + std::to_string(i + 1) + " bytes");
      }
      if (i < n / 64) {  // inserted and removed bytes
        vector<char> w = v;
        w.erase(w.begin() + i * 64);
        w.push_back(0);
        if (w != v) { spit(f, w); refuse(c, f, "missing byte " + std::to_string(i * 64)); }
      }
      unlink(f.c_str());
    });
    // 3. crash images: any prefix, any one or two pages lost, any page alone, with and without the checksum
    u64 pg = (n + 4095) / 4096;
    vector<char> nock = v;
    size_t co = (char *)&((db_memsegment_header *)v.data())->checksum - v.data();
    memset(&nock[co], 0, 4);
    d.pfor(pg * pg * 4, [&](u64 i, Ctx &c) {
      u64 a = i / 4 / pg, b2 = i / 4 % pg;
      int ck = i & 1, what = i >> 1 & 1;
      if (a > b2) return;
      vector<char> w = ck ? v : nock;
      const vector<char> &src = w;
      vector<char> o(n, 0);
      // what 0: pages a and b are lost; 1: only the pages a..b are there
      for (u64 p = 0; p < pg; p++) {
        bool keep = what ? p >= a && p <= b2 : p != a && p != b2;
        if (keep) memcpy(&o[p * 4096], &src[p * 4096], std::min<u64>(4096, n - p * 4096));
      }
      string f = fname("cr");
      spit(f, o);
      Trace::set("crash image " + std::to_string(i));
      if (o == v) { if (!chk(f.c_str())) violation(c, "good", "a good dump is refused", {}, ""); }
      else refuse(c, f, string(what ? "only written in pages " : "without the pages ") + std::to_string(a) + (what ? ".." : " and ") + std::to_string(b2) + (ck ? "" : " and without checksum"));
      unlink(f.c_str());
    });
    wg_delete_local_database(b.db);
  }
  // 4. dumps of incompatible builds: every changed bit of mark, version and features, with a right checksum
  d.pfor(96 + 3 * 255, [&](u64 i, Ctx &c) {
    string f = fname("hd");
    Base b = mk(f, 1, SZ);
    db_memsegment_header *h = dbmemsegh(b.db);
    int fld;
    unsigned x;
    if (i < 96) { fld = i / 32; x = 1u << i % 32; }
    else { fld = (i - 96) / 255; x = ((i - 96) % 255 + 1) << 8; }
    gint32 *p = fld == 0 ? (gint32 *)&h->mark : fld == 1 ? (gint32 *)&h->version : (gint32 *)&h->features;
    *p ^= x;
    Trace::set("header field " + std::to_string(fld) + " changed by " + std::to_string(x));
    gint r = wg_dump_internal(b.db, &f[0], 0);
    *p ^= x;
    c.add("evaluations");
    c.add("distinct_nontrivial");
    if (r == 0 && chk(f.c_str())) violation(c, "header " + std::to_string(fld) + " " + std::to_string(x), "accepted: a dump of a build whose " + string(fld == 0 ? "magic mark" : fld == 1 ? "version" : "features") + " differs by " + std::to_string(x), {}, "");
    h->extdbs.count = 1 + i % 3;
    r = wg_dump_internal(b.db, &f[0], 0);
    h->extdbs.count = 0;
    if (r == 0) {
      void *g = wg_attach_local_database(SZ);
      vector<char> m0 = area(g);
      if (wg_import_dump(g, &f[0]) == 0) violation(c, "extdb", "a dump with references to other databases is loaded", {}, "");
      else if (area(g) != m0) violation(c, "extdbchg", "a refused dump changes the database", {}, "");
      wg_delete_local_database(g);
    }
    unlink(f.c_str());
    wg_delete_local_database(b.db);
  });
  // 5. the disk fills up after every number of bytes; every call fails
  {
    Base b = mk("", 2, SZ);
    u64 n = b.mem.size();
    vector<u64> lim;
    for (u64 k = 0; k < n + 8; k++)
      if (k % 512 == 0 || k + 8300 > n || k < 1100 || (!q && k % 16 == 0)) lim.push_back(k);
    d.pfor(lim.size(), [&](u64 i, Ctx &c) {
      string f = fname("li");
      unlink(f.c_str());
      Trace::set("file size limit " + std::to_string(lim[i]));
      // the limit is lowered in a child: the checker writes files of its own
      pid_t p = fork();
      if (!p) {
        struct rlimit rl = {lim[i], lim[i]};
        setrlimit(RLIMIT_FSIZE, &rl);
        _exit(wg_dump(b.db, &f[0]) ? 1 : 0);
      }
      int st = 0;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      gint r = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
      c.add("evaluations");
      if (r == 99) violation(c, "crash" + std::to_string(lim[i]), "wg_dump crashes when the disk is full after " + std::to_string(lim[i]) + " bytes", {}, "");
      bool good = chk(f.c_str());
      if (r == 0 && !good) violation(c, "full " + std::to_string(lim[i]), "wg_dump reports success though the disk was full after " + std::to_string(lim[i]) + " of " + std::to_string(n) + " bytes", {}, "");
      if (lim[i] >= n && (r || !good)) violation(c, "full ok " + std::to_string(lim[i]), "wg_dump fails though there is room for the file", {}, "");
      if (r) c.add("distinct_nontrivial");
      unlink(f.c_str());
    }, 8);
    d.pfor(2 * 64, [&](u64 i, Ctx &c) {
      string f = fname("fl");
      int nr = i / 2 + 1;
      bool lk = i & 1;
      unlink(f.c_str());
      f_seen = 0; f_nr = nr; f_hit = nullptr; f_on = 1;
      gint r = wg_dump_internal(b.db, &f[0], lk);
      f_on = 0;
      string w = f_hit ? f_hit : "";
      c.add("evaluations");
      if (f_hit) c.add("distinct_nontrivial");
      if (!f_hit && r) violation(c, "nofault", "wg_dump fails without a fault", {}, "");
      if (r == 0 && !chk(f.c_str())) violation(c, "fault " + w + std::to_string(nr), "wg_dump reports success though " + w + " (call " + std::to_string(nr) + ") failed and the file is refused", {}, "");
      if (r == 0 && w == "fclose") violation(c, "fclose", "wg_dump reports success though closing the file failed", {}, "");
      // reading
      if (wg_dump_internal(b.db, &f[0], 0)) return;
      f_seen = 0; f_hit = nullptr; f_on = 1;
      bool ok = chk(f.c_str());
      f_on = 0;
      w = f_hit ? f_hit : "";
      if (ok && f_hit && w != "fclose") violation(c, "rfault " + w + std::to_string(nr), "a dump is accepted though " + w + " (call " + std::to_string(nr) + ") failed", {}, "");
      if (!ok && !f_hit) violation(c, "nofault2", "a good dump is refused", {}, "");
      void *g = wg_attach_local_database(SZ);
      vector<char> m0 = area(g);
      f_seen = 0; f_hit = nullptr; f_on = 1;
      r = wg_import_dump(g, &f[0]);
      f_on = 0;
      w = f_hit ? f_hit : "";
      if (r == 0 && f_hit && w != "fclose") violation(c, "ifault " + w + std::to_string(nr), "loading reports success though " + w + " (call " + std::to_string(nr) + ") failed", {}, "");
      if (r == -1 && area(g) != m0) violation(c, "ichg " + w, "loading reports a harmless error after changing the database", {}, "");
      if (r && !f_hit) violation(c, "nofault3", "a good dump does not load", {}, "");
      wg_delete_local_database(g);
      unlink(f.c_str());
    }, 1);
    wg_delete_local_database(b.db);
  }
  // 6. another user of the database changes it just before the dump gets its lock, and after it gave it back
  d.pfor(2 * NKIND * 2, [&](u64 i, Ctx &c) {
    int k = i / 2 % NKIND;
    bool before = i & 1;
    gint size = i / 2 >= NKIND ? 1000000 : 3000000;
    string f = fname("lk");
    Base b = mk(f, 1, size);
    string want;
    auto other = [&] {
      at_lock = at_unlock = nullptr;
      gint l = wg_start_write(b.db);
      fill(b.db, k);
      wg_end_write(b.db, l);
    };
    if (!before) want = b.cont; else at_lock = [&] { other(); want = content(b.db); };
    if (!before) at_unlock = other;
    gint r = wg_dump(b.db, &f[0]);
    at_lock = at_unlock = nullptr;
    if (want.empty()) want = content(b.db);  // no queued lock in this build
    c.add("evaluations");
    c.add("distinct_nontrivial");
    string nm = kindname(k) + (before ? " added while the dump waits for its lock" : " added after the dump gave its lock back");
    if (r) violation(c, "ldump " + nm, "wg_dump fails: " + nm, {}, "");
    else if (!chk(f.c_str())) violation(c, "lchk " + nm, "a dump reported as complete is refused: " + nm, {}, "");
    else {
      void *g = wg_attach_local_database(size);
      if (wg_import_dump(g, &f[0])) violation(c, "limp " + nm, "a dump reported as complete does not load: " + nm, {}, "");
      else if (content(g) != want) violation(c, "lcont " + nm, "the dump holds something else than the database did: " + nm, {}, "");
      wg_delete_local_database(g);
    }
    unlink(f.c_str());
    wg_delete_local_database(b.db);
  });
  // 7. gkc itself: build, write, delete, load, query; loading over another kb; loading damaged files
  {
    string sd = dir + "/shm";
    mkdir(sd.c_str(), 0700);
    snprintf(gkv_shm_dir, sizeof gkv_shm_dir, "%s", sd.c_str());
    string kb = dir + "/kb.txt", kb2 = dir + "/kb2.txt", qf = dir + "/q.txt", df = dir + "/d.bin", dc = dir + "/dc.bin";
    auto put = [](const string &f, const string &t) { spit(f, vector<char>(t.begin(), t.end())); };
    put(kb, "p(a).\n-p(X) | q(X).\n");
    put(kb2, "r(a).\n");
    put(qf, "-q(a).\n");
    Ctx c;
    string vf = dir + "/v7";
    c.vf = fopen(vf.c_str(), "w");
    RunOpt o;
    o.wall = 120;
    o.maxout = 4000u << 20;
    o.clock_step = 1000;
    auto g = [&](vector<string> a) { for (const char *x : {"-mbnr", "4711"}) a.push_back(x); c.add("evaluations"); return run_gkc(a, o); };
    auto proof = [&](const RunResult &r) { return r.out.find("proof found") != string::npos && r.out.find("not found") == string::npos; };
    auto ask = [&] { return g({"-usekb", qf, "-parallel", "0", "-mbsize", "10", "-seconds", "1"}); };
    auto need = [&](bool ok, const string &what, const RunResult &r) { c.add("distinct_nontrivial"); if (!ok) violation(c, "cli " + what, "gkc: " + what, {}, "code " + std::to_string(r.code) + " signal " + std::to_string(r.sig) + "\n" + r.out); };
    RunResult r = g({"-readkb", kb, "-mbsize", "1000"});
    need(r.code == 0, "-readkb fails", r);
    r = ask(); need(proof(r), "no proof from the kb built by -readkb", r);
    r = g({"-writekb", df}); need(r.code == 0, "-writekb fails", r);
    need(chk(df.c_str()), "the file of -writekb is refused", r);
    r = ask(); need(proof(r), "no proof after -writekb", r);
    r = g({"-deletekb"}); need(r.code == 0, "-deletekb fails", r);
    r = ask(); need(!proof(r) && r.code != 0 && !r.sig, "a query against a deleted kb", r);
    r = g({"-loadkb", df}); need(r.code == 0, "-loadkb fails", r);
    r = ask(); need(proof(r), "no proof from the loaded kb", r);
    r = g({"-readkb", kb2, "-mbsize", "1000"}); need(r.code == 0, "-readkb over a kb fails", r);
    r = ask(); need(!proof(r) && !r.sig, "a query against the other kb", r);
    // damaged files are refused and leave the kb in memory as it is
    int fd = open(df.c_str(), O_RDWR);
    struct stat st;
    fstat(fd, &st);
    vector<off_t> ps = {0, 5, 9, 20, 4096, st.st_size / 2, st.st_size - 1};
    if (q) ps = {0, 9, st.st_size - 1};
    for (off_t p : ps) {
      char x, y;
      if (pread(fd, &x, 1, p) < 0) {}
      y = x ^ 4;
      if (pwrite(fd, &y, 1, p) < 0) {}
      r = g({"-loadkb", df});
      need(r.code == 1 && !r.sig, "-loadkb of a file with byte " + std::to_string(p) + " changed does not fail", r);
      if (pwrite(fd, &x, 1, p) < 0) {}
    }
    r = ask(); need(!proof(r) && !r.sig, "a refused -loadkb changes the kb in memory", r);
    r = g({"-loadkb", df}); need(r.code == 0, "-loadkb over another kb fails", r);
    r = ask(); need(proof(r), "no proof from a kb loaded over another", r);
    if (ftruncate(fd, st.st_size - 1)) {}
    r = g({"-loadkb", df}); need(r.code == 1 && !r.sig, "-loadkb of a truncated file does not fail", r);
    r = g({"-loadkb", dir + "/none"}); need(r.code == 1 && !r.sig, "-loadkb of a missing file does not fail", r);
    r = ask(); need(proof(r), "a refused -loadkb changes the kb in memory", r);
    close(fd);
    r = g({"-readwritekb", kb, df, "-mbsize", "1000"}); need(r.code == 0, "-readwritekb fails", r);
    need(chk(df.c_str()), "the file of -readwritekb is refused", r);
    r = g({"-deletekb"});
    r = g({"-loadkb", df}); need(r.code == 0, "-loadkb after -readwritekb fails", r);
    r = ask(); need(proof(r), "no proof from the kb of -readwritekb", r);
    fclose(c.vf);
    vector<char> t = slurp(vf);
    string cur;
    for (char ch : t) { if (ch == '\n') { d.violations.push_back(cur); cur.clear(); } else cur += ch; }
    for (auto &k : c.cnt) d.cnt[k.first] += k.second;
  }
  d.samples.push_back("dump with all value types: truncated to every length, every byte changed by every mask, every pair of pages lost");
  d.texts["spaces"] = "round trips of 6 contents between sizes and prior states; every truncation; every byte changed; every page range and pair of lost pages; every bit of mark, version and features; disk full after n bytes; failure of each library call; a writer before and after the lock; gkc's own commands";
}
}  // namespace
static CheckReg r18("C18", c18);
