// Explicit-state exploration of the real code: states are reached by replaying operation histories
// on a memory image, level by level over all operations; every new state is checked, states are
// identified by a 64-bit fingerprint of the canonical state.
#pragma once
#include "core.hpp"

struct Model {
  virtual ~Model() {}
  virtual string name() const = 0;
  virtual int nops() const = 0;
  virtual void reset() = 0;             // initial state
  virtual bool apply(int op) = 0;       // false: not enabled here (state unchanged). Sets err on a wrong result.
  virtual u64 fingerprint() = 0;
  virtual bool check_all() { return false; }
  virtual string check() = 0;           // "" or what is wrong in this state
  virtual string opname(int op) const = 0;
  virtual void save() = 0;              // remember the current state ...
  virtual void restore() = 0;           // ... and return to it
  string err;
};

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

struct SeenSet {
  u64 n;
  std::atomic<u64> *t;
  SeenSet(int bits) : n(1ull << bits) {
    t = (std::atomic<u64> *)mmap(nullptr, n * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void *)t == MAP_FAILED) { perror("mmap"); exit(3); }
  }
  ~SeenSet() { munmap((void *)t, n * 8); }
  bool insert(u64 f) {
    if (!f) f = 1;
    for (u64 i = f & (n - 1), k = 0; k < n; k++, i = (i + 1) & (n - 1)) {
      u64 v = t[i].load(std::memory_order_relaxed);
      if (v == f) return false;
      if (v == 0) {
        u64 e = 0;
        if (t[i].compare_exchange_strong(e, f)) return true;
        if (e == f) return false;
      }
    }
    fprintf(stderr, "CHECK ERROR: state table full\n");
    exit(4);
  }
};

struct BfsResult { u64 states = 0, trans = 0; int depth = 0; bool fixpoint = false; };

// maxdepth: bound on the history length; maxstates: stop opening levels beyond it (still exhaustive up to the level reported)
inline BfsResult bfs(Driver &d, Model &m, int maxdepth, u64 maxstates, int bits = 25) {
  BfsResult r;
  SeenSet seen(bits);
  vector<uint8_t> front;  // histories of length depth
  u64 nfront = 1;
  m.reset();
  seen.insert(m.fingerprint());
  r.states = 1;
  string e0 = m.check();
  if (!e0.empty()) { d.add_violation_json(viol_json(m.name() + ":init", m.name() + ": initial state: " + e0, {}, "")); return r; }
  for (int depth = 0; depth < maxdepth && nfront; depth++) {
    if (r.states >= maxstates || d.over() || d.violations.size() >= 10) break;
    string base = d.scratch + "/bfs" + std::to_string(getpid()) + "_";
    u64 s0 = d.cnt["states"], t0 = d.cnt["transitions"];
    d.pfor(nfront, [&](u64 i, Ctx &c) {
      const uint8_t *h = front.data() + i * depth;
      auto hist = [&](int op) {
        string s = m.name() + ":";
        for (int k = 0; k < depth; k++) s += " " + m.opname(h[k]);
        if (op >= 0) s += " " + m.opname(op);
        return s;
      };
      Trace::set(hist(-1));
      Trace::limit(20);
      m.reset();
      m.err.clear();
      for (int k = 0; k < depth; k++) m.apply(h[k]);
      m.save();
      c.add("traces_validated_against_impl");
      static FILE *out = nullptr;
      static pid_t op_ = 0;
      if (op_ != getpid()) { out = fopen((base + std::to_string(getpid())).c_str(), "w"); op_ = getpid(); }
      for (int op = 0; op < m.nops(); op++) {
        m.err.clear();
        Trace::set(hist(op));
        if (!m.apply(op)) continue;
        c.add("transitions");
        if (!m.err.empty()) {
          violation(c, hist(op), m.err + " after history " + hist(op), {}, "");
          m.restore();
          continue;
        }
        u64 f = m.fingerprint();
        bool fresh = seen.insert(f);
        if (!fresh && m.check_all()) {  // the fingerprint leaves things out that the check looks at
          string e = m.check();
          if (!e.empty()) violation(c, hist(op), e + " after history " + hist(op), {}, "");
        }
        if (fresh) {
          c.add("states");
          string e = m.check();
          if (!e.empty()) violation(c, hist(op), e + " after history " + hist(op), {}, "");
          else {
            fwrite(h, 1, depth, out);
            uint8_t o = op;
            fwrite(&o, 1, 1, out);
            if (c.samples.empty()) c.sample(hist(op));
          }
        }
        m.restore();
      }
      Trace::limit(0);
      fflush(out);
    }, std::max<u64>(1, std::min<u64>(256, nfront / (d.jobs * 8))));
    // collect the next level
    vector<uint8_t> next;
    {
      string dir = d.scratch;
      FILE *p = popen(("ls " + base + "* 2>/dev/null").c_str(), "r");
      char line[1024];
      vector<string> files;
      while (p && fgets(line, sizeof line, p)) { string s = line; s.pop_back(); files.push_back(s); }
      if (p) pclose(p);
      for (auto &fn : files) {
        FILE *f = fopen(fn.c_str(), "r");
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) next.insert(next.end(), b, b + n);
        fclose(f);
        unlink(fn.c_str());
      }
    }
    r.states += d.cnt["states"] - s0;
    r.trans += d.cnt["transitions"] - t0;
    r.depth = depth + 1;
    front.swap(next);
    nfront = front.size() / (depth + 1);
    if (!nfront) r.fixpoint = true;
  }
  d.cnt["states"] += 1;
  return r;
}
