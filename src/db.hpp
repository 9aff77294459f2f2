// The database layer of gkc, linked into the driver and called directly.
#pragma once
#include "bfs.hpp"
#include <cmath>
#include <limits>
extern "C" {
#include "Db/dballoc.h"
#include "Db/dbmem.h"
#include "Db/dbdata.h"
#include "Db/dbindex.h"
#include "Db/dbquery.h"
#include "Db/dbcompare.h"
#include "Db/dbhash.h"
#include "Db/dbutil.h"
#define class klass
#include "Db/dblock.h"
#undef class
#include "Db/dbdump.h"
}
#undef min
#undef max

// a private image of a local database that can be reset and saved quickly
struct DbImage {
  void *db = nullptr;
  gint size;
  vector<char> init, saved;
  DbImage(gint size_) : size(size_) {
    db = wg_attach_local_database(size);
    if (!db) { fprintf(stderr, "CHECK ERROR: no local database of %ld bytes\n", (long)size); exit(4); }
  }
  ~DbImage() { wg_delete_local_database(db); }
  db_memsegment_header *h() { return dbmemsegh(db); }
  size_t used() { return std::min<size_t>(h()->free + 64, size); }
  void mark() { init.assign((char *)dbmemseg(db), (char *)dbmemseg(db) + used()); }
  void reset() { memcpy(dbmemseg(db), init.data(), init.size()); }
  void save() { saved.assign((char *)dbmemseg(db), (char *)dbmemseg(db) + used()); }
  void restore() { memcpy(dbmemseg(db), saved.data(), saved.size()); }
};

// library messages of expected failures are not of interest; the driver's own errors come before
inline void quiet_stderr() {
  static bool done = false;
  if (done) return;
  done = true;
  int fd = open("/dev/null", O_WRONLY);
  if (!getenv("GKV_LOUD")) { dup2(fd, 2); dup2(fd, 1); }
  close(fd);
}
