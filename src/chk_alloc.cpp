// C20: the segment allocator, explored as a state space (the real Db/dballoc.c).
#include "db.hpp"

static u64 U(gint x) { return (u64)x; }
static const gint G = sizeof(gint);

struct Obj { gint off, nr; int area; };

// variable-length areas: operations are "allocate sizes[i]" and "free the k-th live object by address"
struct VarAlloc : Model {
  string nm;
  vector<gint> sizes;  // in gints, header included
  int maxlive;
  gint room;           // bytes left in the first subarea
  bool ext;            // may the area be extended
  gint extroom;        // bytes the segment can still give
  DbImage im;
  vector<gint> areas;  // offsets of area headers inside the segment
  vector<Obj> live, fixedobjs, slive;
  VarAlloc(const string &n, vector<gint> sz, int ml, gint rm, gint er, int nareas = 1)
      : nm(n), sizes(sz), maxlive(ml), room(rm), extroom(er), im(2000000) {
    db_memsegment_header *h = im.h();
    db_area_header *as[2] = {&h->longstr_area_header, &h->datarec_area_header};
    for (int a = 0; a < nareas; a++) {
      areas.push_back(ptrtooffset(im.db, as[a]));
      // what the database itself stored there at creation
      auto &sa = as[a]->subarea_array[0];
      for (gint p = sa.alignedoffset + MIN_VARLENOBJ_SIZE; p < sa.alignedoffset + sa.alignedsize - MIN_VARLENOBJ_SIZE;) {
        if (p == as[a]->freebuckets[DVBUCKET]) { p += as[a]->freebuckets[DVSIZEBUCKET]; continue; }
        gint w = dbfetch(im.db, p) & ~(gint)3;
        fixedobjs.push_back({p, w / G, a});
        p += std::max<gint>(w, MIN_VARLENOBJ_SIZE);
      }
      // one object that stays for ever leaves `room` bytes
      gint fill = as[a]->freebuckets[DVSIZEBUCKET] - room;
      if (fill >= 64) {
        gint nr = fill / G;
        gint o = wg_alloc_gints(im.db, as[a], nr);
        fixedobjs.push_back({o, nr, a});
      }
    }
    h->size = h->free + extroom;
    // stale data everywhere in the free space: looks like ends of free objects
    for (auto &o : fixedobjs) paint(o);
    im.mark();
    live = fixedobjs;
  }
  db_area_header *area(int a) { return (db_area_header *)offsettoptr(im.db, areas[a]); }
  string name() const override { return nm; }
  int nops() const override { return (int)(sizes.size() * areas.size()) + maxlive; }
  string opname(int op) const override {
    int na = sizes.size() * areas.size();
    if (op < na) return (areas.size() > 1 ? string(op / sizes.size() ? "B:" : "A:") : string("")) + "alloc" + std::to_string(sizes[op % sizes.size()]);
    return "free#" + std::to_string(op - na);
  }
  void reset() override { im.reset(); live = fixedobjs; }
  void save() override { im.save(); slive = live; }
  void restore() override { im.restore(); live = slive; }
  // contents: look like the ends of free objects, differ between objects
  gint pat(const Obj &o, gint k) { return ((o.nr * G + 8 * ((k + o.off / 8) % 5)) & ~3) | 1; }
  void paint(const Obj &o) { for (gint k = 1; k < o.nr; k++) dbstore(im.db, o.off + k * G, pat(o, k)); }
  bool intact(const Obj &o) {
    for (gint k = 1; k < o.nr; k++) if (dbfetch(im.db, o.off + k * G) != pat(o, k)) return false;
    return true;
  }
  bool apply(int op) override {
    int na = sizes.size() * areas.size();
    if (op < na) {
      if ((int)(live.size() - fixedobjs.size()) >= maxlive) return false;
      int a = op / sizes.size();
      gint nr = sizes[op % sizes.size()];
      gint o = wg_alloc_gints(im.db, area(a), nr);
      if (o == 0) return true;  // exhausted: allowed, must change nothing that matters (checked by check())
      Obj x = {o, nr, a};
      if (o < 0 || o % 8 || o + nr * G > im.h()->size) { err = "allocation of " + std::to_string(nr) + " gints returned the bad offset " + std::to_string(o); return true; }
      bool inside = false;
      for (gint s = 0; s <= area(a)->last_subarea_index; s++) {
        auto &sa = area(a)->subarea_array[s];
        if (o >= sa.alignedoffset && o + nr * G <= sa.alignedoffset + sa.alignedsize) inside = true;
      }
      if (!inside) { err = "allocated object lies outside the subareas of its area"; return true; }
      for (auto &l : live)
        if (o < l.off + l.nr * G && l.off < o + nr * G) { err = "allocated object overlaps a live object"; return true; }
      if ((dbfetch(im.db, o) & ~(gint)3) != nr * G) { err = "allocated object does not record its size"; return true; }
      paint(x);
      live.push_back(x);
      return true;
    }
    int k = op - na;
    if (k >= (int)(live.size() - fixedobjs.size())) return false;
    // k-th live object by address
    vector<size_t> ix;
    for (size_t i = fixedobjs.size(); i < live.size(); i++) ix.push_back(i);
    std::sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return live[x].off < live[y].off; });
    size_t i = ix[k];
    Obj o = live[i];
    if (!intact(o)) { err = "a live object lost its contents"; return true; }
    gint rc = wg_free_object(im.db, area(o.area), o.off);
    live.erase(live.begin() + i);
    if (rc != 0) err = "freeing a live object is refused with " + std::to_string(rc);
    return true;
  }
  // every block of every subarea: live, the designated victim, or in the free list of its size
  string check() override {
    for (auto &o : live) if (!intact(o)) return "a live object lost its contents";
    for (size_t a = 0; a < areas.size(); a++) {
      db_area_header *ar = area(a);
      std::map<gint, int> listed;  // free blocks by list
      for (int b = 0; b < EXACTBUCKETS_NR + VARBUCKETS_NR; b++) {
        int n = 0;
        for (gint p = ar->freebuckets[b]; p; p = dbfetch(im.db, p + G)) {
          if (p < 0 || p % 8 || p >= im.h()->size) return "a free list holds a bad offset";
          if (++n > 100000) return "a free list does not end";
          if (listed.count(p)) return "a block is in a free list twice";
          if ((dbfetch(im.db, p) & 3) != 1) return "a block in a free list is not marked free";
          if (wg_freebuckets_index(im.db, dbfetch(im.db, p) & ~(gint)3) != b) return "a free block is in the list of another size";
          listed[p] = b;
        }
      }
      std::set<gint> used;
      for (auto &o : live) if (o.area == (int)a) used.insert(o.off);
      size_t seenl = 0, seenf = 0;
      bool dvseen = false;
      for (gint s = 0; s <= ar->last_subarea_index; s++) {
        auto &sa = ar->subarea_array[s];
        for (size_t a2 = 0; a2 < areas.size(); a2++)
          for (gint s2 = 0; s2 <= area(a2)->last_subarea_index; s2++) {
            auto &sb = area(a2)->subarea_array[s2];
            if ((a2 != a || s2 != s) && sa.offset < sb.offset + sb.size && sb.offset < sa.offset + sa.size) return "two subareas overlap";
          }
        if (sa.offset + sa.size > im.h()->free || im.h()->free > im.h()->size) return "a subarea lies beyond the allocated part of the segment";
        gint p = sa.alignedoffset + MIN_VARLENOBJ_SIZE, end = sa.alignedoffset + sa.alignedsize - MIN_VARLENOBJ_SIZE;
        while (p < end) {
          gint hd = dbfetch(im.db, p), sz;
          if (p == ar->freebuckets[DVBUCKET] && ar->freebuckets[DVSIZEBUCKET] > 0) {
            sz = ar->freebuckets[DVSIZEBUCKET];
            dvseen = true;
          } else if (used.count(p)) {
            seenl++;
            gint w = hd & ~(gint)3;
            sz = w <= MIN_VARLENOBJ_SIZE ? MIN_VARLENOBJ_SIZE : w;
          } else if (listed.count(p)) {
            sz = hd & ~(gint)3;
            seenf++;
          } else return "the block at subarea byte " + std::to_string(p - sa.alignedoffset) + " is neither live nor free: memory lost";
          if (sz < MIN_VARLENOBJ_SIZE || sz % 8 || p + sz > end) return "a block has the impossible size " + std::to_string(sz);
          p += sz;
        }
        if (p != end) return "the blocks do not fill the subarea";
      }
      if (seenl != used.size()) return "a live object is not found in its area";
      if (seenf != listed.size()) return "a free list holds something that is not a block of the area";
      if (!dvseen && ar->freebuckets[DVSIZEBUCKET] > 0) return "the designated victim is not a block of the area";
    }
    return "";
  }
  u64 fingerprint() override {
    u64 f = 7;
    for (size_t a = 0; a < areas.size(); a++) {
      db_area_header *ar = area(a);
      f = mix(f, U(ar->last_subarea_index));
      for (int b = 0; b < EXACTBUCKETS_NR + VARBUCKETS_NR + 2; b++)
        if (ar->freebuckets[b]) {
          f = mix(f, b * 1000003ull + U(ar->freebuckets[b]));
          if (b >= EXACTBUCKETS_NR + VARBUCKETS_NR) continue;
          int n = 0;
          for (gint p = ar->freebuckets[b]; p > 0 && p < im.h()->size && n < 1000; p = dbfetch(im.db, p + G), n++) {
            f = mix(f, U(p));
            f = mix(f, U(dbfetch(im.db, p)));
            f = mix(f, U(dbfetch(im.db, p + 2 * G)));
          }
        }
    }
    vector<Obj> l = live;
    std::sort(l.begin(), l.end(), [](const Obj &x, const Obj &y) { return x.off < y.off; });
    for (auto &o : l) { f = mix(f, U(o.off)); f = mix(f, U(dbfetch(im.db, o.off))); }
    f = mix(f, U(im.h()->free));
    return f;
  }
};

// fixed-length areas: allocate a cell of area a / free the k-th live cell
struct FixAlloc : Model {
  string nm;
  int maxlive;
  DbImage im;
  vector<gint> areas, lost;
  vector<Obj> live, base, slive;
  FixAlloc(const string &n, vector<int> which, int ml, int left, gint extroom) : nm(n), maxlive(ml), im(2000000) {
    db_memsegment_header *h = im.h();
    db_area_header *as[] = {&h->listcell_area_header, &h->shortstr_area_header, &h->word_area_header, &h->doubleword_area_header,
                            &h->tnode_area_header, &h->indexhdr_area_header, &h->indextmpl_area_header};
    for (size_t i = 0; i < which.size(); i++) {
      db_area_header *a = as[which[i]];
      areas.push_back(ptrtooffset(im.db, a));
      int n = 0;
      for (gint p = a->freelist; p; p = dbfetch(im.db, p)) n++;
      lost.push_back(a->subarea_array[0].alignedsize / a->objlength - n);  // used by the database itself
      for (; n > left; n--) {
        gint o = wg_alloc_fixlen_object(im.db, a);
        base.push_back({o, a->objlength, (int)i});
      }
    }
    h->size = h->free + extroom;
    for (auto &o : base) paint(o);
    im.mark();
    live = base;
  }
  db_area_header *area(int a) { return (db_area_header *)offsettoptr(im.db, areas[a]); }
  string name() const override { return nm; }
  int nops() const override { return (int)areas.size() + maxlive; }
  string opname(int op) const override { return op < (int)areas.size() ? "cell" + std::to_string(op) : "free#" + std::to_string(op - areas.size()); }
  void reset() override { im.reset(); live = base; }
  void save() override { im.save(); slive = live; }
  void restore() override { im.restore(); live = slive; }
  unsigned char pb(const Obj &o, gint k) { return (unsigned char)(o.off / 8 * 37 + k * 11 + 1); }
  void paint(const Obj &o) { for (gint k = 0; k < o.nr; k++) dbmemsegbytes(im.db)[o.off + k] = pb(o, k); }
  bool intact(const Obj &o) {
    for (gint k = 0; k < o.nr; k++) if ((unsigned char)dbmemsegbytes(im.db)[o.off + k] != pb(o, k)) return false;
    return true;
  }
  bool apply(int op) override {
    if (op < (int)areas.size()) {
      if ((int)(live.size() - base.size()) >= maxlive) return false;
      db_area_header *a = area(op);
      gint o = wg_alloc_fixlen_object(im.db, a);
      if (!o) return true;
      Obj x = {o, a->objlength, op};
      if (o < 0 || o % 8 || o + x.nr > im.h()->size) { err = "allocated cell at the bad offset " + std::to_string(o); return true; }
      bool inside = false;
      for (gint s = 0; s <= a->last_subarea_index; s++)
        if (o >= a->subarea_array[s].alignedoffset && o + x.nr <= a->subarea_array[s].alignedoffset + a->subarea_array[s].alignedsize) inside = true;
      if (!inside) { err = "allocated cell lies outside its area"; return true; }
      for (auto &l : live) if (o < l.off + l.nr && l.off < o + x.nr) { err = "allocated cell overlaps a live object"; return true; }
      paint(x);
      live.push_back(x);
      return true;
    }
    int k = op - areas.size();
    if (k >= (int)(live.size() - base.size())) return false;
    Obj o = live[base.size() + k];
    if (!intact(o)) { err = "a live cell lost its contents"; return true; }
    live.erase(live.begin() + base.size() + k);
    db_memsegment_header *h = im.h();
    db_area_header *a = area(o.area);
    if (a == &h->listcell_area_header) wg_free_listcell(im.db, o.off);
    else if (a == &h->shortstr_area_header) wg_free_shortstr(im.db, o.off);
    else if (a == &h->word_area_header) wg_free_word(im.db, o.off);
    else if (a == &h->doubleword_area_header) wg_free_doubleword(im.db, o.off);
    else if (a == &h->tnode_area_header) wg_free_tnode(im.db, o.off);
    else wg_free_fixlen_object(im.db, a, o.off);
    return true;
  }
  string check() override {
    for (auto &o : live) if (!intact(o)) return "a live cell lost its contents";
    for (size_t a = 0; a < areas.size(); a++) {
      db_area_header *ar = area(a);
      u64 total = 0;
      for (gint s = 0; s <= ar->last_subarea_index; s++) {
        auto &sa = ar->subarea_array[s];
        total += sa.alignedsize / ar->objlength;
        if (sa.offset + sa.size > im.h()->free || im.h()->free > im.h()->size) return "a subarea lies beyond the allocated part of the segment";
      }
      u64 n = 0, nl = 0;
      std::set<gint> lv;
      for (auto &o : live) if (o.area == (int)a) { nl++; lv.insert(o.off); }
      std::set<gint> fr;
      for (gint p = ar->freelist; p; p = dbfetch(im.db, p)) {
        if (p < 0 || p >= im.h()->size) return "the free list leaves the segment";
        if (lv.count(p)) return "a live cell is in the free list";
        if (!fr.insert(p).second) return "a cell is in the free list twice";
        n++;
      }
      if (n + nl + lost[a] + ar->last_subarea_index < total) return "cells lost: " + std::to_string(n) + " free and " + std::to_string(nl) + " live of " + std::to_string(total);
    }
    return "";
  }
  u64 fingerprint() override {
    u64 f = 7;
    for (auto a : areas) {
      db_area_header *ar = (db_area_header *)offsettoptr(im.db, a);
      int n = 0;
      for (gint p = ar->freelist; p > 0 && p < im.h()->size && n < 64; p = dbfetch(im.db, p), n++) f = mix(f, U(p));
      f = mix(f, U(ar->last_subarea_index) + 77);
    }
    for (auto &o : live) f = mix(f, U(o.off));
    return mix(f, U(im.h()->free));
  }
};

static void c20(Driver &d) {
  quiet_stderr();
  string t;
  auto run = [&](Model *m, int depth, u64 cap) {
    auto r = bfs(d, *m, depth, cap);
    t += (t.empty() ? "" : "; ") + m->name() + ": " + std::to_string(r.states) + " states, histories up to " + std::to_string(r.depth) + (r.fixpoint ? " (all reachable states)" : "");
    delete m;
  };
  bool q = d.quick();
  u64 cap = q ? 300000 : 6000000;
  int dp = q ? 14 : 40;
  // sizes in gints, 8 bytes each; 4 gints is the smallest block
  run(new VarAlloc("tiny 4,5,8 in 160 bytes, no growth", {4, 5, 8}, 5, 160, 8), dp, cap);
  run(new VarAlloc("1,4,6,9 in 208 bytes, no growth", {1, 4, 6, 9}, 6, 208, 8), dp, cap);
  run(new VarAlloc("4,8,12 in 320 bytes, no growth", {4, 8, 12}, 8, 320, 8), dp, cap);
  run(new VarAlloc("27,31,32,33 around the exact-size limit in 1200 bytes", {27, 31, 32, 33}, 6, 1200, 8), dp, cap);
  run(new VarAlloc("32,36,40,64,65 large lists in 2200 bytes", {32, 36, 40, 64, 65}, 6, 2200, 8), dp, cap);
  run(new VarAlloc("4,34,67 small and large in 1300 bytes", {4, 34, 67}, 7, 1300, 8), dp, cap);
  run(new VarAlloc("6,40,900 with one extension", {6, 40, 900}, 6, 640, 20000), q ? 8 : 12, cap);
  run(new VarAlloc("1010..1030,2040 with extensions", {1007, 1014, 1015, 1016, 1019, 2040}, 5, 96, 70000), q ? 7 : 10, cap);
  run(new VarAlloc("two areas 5,9 in 128 bytes with one extension", {5, 9}, 6, 128, 20000, 2), q ? 9 : 14, cap);
  run(new FixAlloc("list cells and words, no growth", {0, 2}, 5, 3, 8), q ? 9 : 14, cap);
  run(new FixAlloc("short strings and doublewords with extension", {1, 3}, 5, 2, 40000), q ? 8 : 12, cap);
  run(new FixAlloc("tree nodes and index headers with extension", {4, 5}, 5, 1, 40000), q ? 8 : 12, cap);
  run(new FixAlloc("index templates and list cells, small extension", {6, 0}, 5, 1, 9000), q ? 8 : 12, cap);
  d.texts["spaces"] = t;
}
static CheckReg r20("C20", c20);
