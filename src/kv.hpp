#pragma once
#include "db.hpp"

// a small value and its place in the order of all values
struct KV {
  int cls;      // null < int < double < string
  long i;
  double d;
  string s;
  string name() const {
    char b[40];
    if (cls == 0) return "null";
    if (cls == 1) return std::to_string(i);
    if (cls == 2) { snprintf(b, 40, "%.17gd", d); return b; }
    return "\"" + (s.size() > 12 ? s.substr(0, 5) + ".." + std::to_string(s.size()) : s) + "\"";
  }
  gint enc(void *db) const {
    string t = s;
    if (cls == 0) return wg_encode_null(db, nullptr);
    if (cls == 1) return wg_encode_int(db, i);
    if (cls == 2) return wg_encode_double(db, d);
    return wg_encode_str(db, &t[0], nullptr);
  }
  bool operator<(const KV &o) const {
    if (cls != o.cls) return cls < o.cls;
    if (cls == 1) return i < o.i;
    if (cls == 2) return d < o.d;
    if (cls == 3) return strcmp(s.c_str(), o.s.c_str()) < 0;
    return false;
  }
  bool operator==(const KV &o) const { return !(*this < o) && !(o < *this); }
};
static KV KN() { return {0, 0, 0, ""}; }
static KV KI(long i) { return {1, i, 0, ""}; }
static KV KD(double d) { return {2, 0, d, ""}; }
static KV KS(const string &s) { return {3, 0, 0, s}; }

static string rows(const vector<int> &v) {
  string s;
  for (int x : v) s += (s.empty() ? "" : " ") + (x < 0 ? string("?") : std::to_string(x));
  return "[" + s + "]";
}

