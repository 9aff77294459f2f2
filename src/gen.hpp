// Enumeration of clause pools and of clause sets over them.
#pragma once
#include "fol.hpp"

// all k-subsets of 0..n-1 by rank (combinatorial number system, lexicographic in descending max)
struct Subsets {
  u64 n;
  int k;
  vector<vector<u64>> C;
  Subsets(u64 n_, int k_) : n(n_), k(k_) {
    C.assign(n + 1, vector<u64>(k + 1, 0));
    for (u64 i = 0; i <= n; i++) {
      C[i][0] = 1;
      for (int j = 1; j <= k && (u64)j <= i; j++) C[i][j] = C[i - 1][j - 1] + (i - 1 >= (u64)j ? C[i - 1][j] : 0);
    }
  }
  u64 count() const { return C[n][k]; }
  vector<int> get(u64 r) const {  // ascending indices
    vector<int> o(k);
    for (int j = k; j >= 1; j--) {
      // largest c with C[c][j] <= r
      u64 lo = j - 1, hi = n - 1;
      while (lo < hi) {
        u64 m = (lo + hi + 1) / 2;
        if (C[m][j] <= r) lo = m; else hi = m - 1;
      }
      o[j - 1] = (int)lo;
      r -= C[lo][j];
    }
    return o;
  }
};

inline bool tautology(const Clause &c) {
  for (auto &l : c) {
    if (l.pos && l.atom.name == "=" && l.atom.args.size() == 2 && l.atom.args[0] == l.atom.args[1]) return true;
    for (auto &m : c)
      if (l.pos && !m.pos && l.atom == m.atom) return true;
  }
  return false;
}

struct Pool {
  vector<Clause> cls;
  std::map<Clause, int> ix;
  void add(const Clause &c0) {
    for (size_t i = 0; i < c0.size(); i++)
      for (size_t j = i + 1; j < c0.size(); j++) if (c0[i] == c0[j]) return;
    if (tautology(c0)) return;
    Clause c = canon(c0);
    if (ix.count(c)) return;
    ix[c] = cls.size();
    cls.push_back(c);
  }
  // every clause of exactly n literals over the given atoms, variables of the i-th literal taken from
  // the given list of atom sets
  void all(const vector<Term> &atoms, int n, const std::function<bool(const Clause &)> &keep = nullptr) {
    vector<Lit> ls;
    for (auto &a : atoms) { ls.push_back({true, a}); ls.push_back({false, a}); }
    vector<int> p(n, 0);
    std::function<void(int, int, Clause &)> rec = [&](int d, int from, Clause &c) {
      if (d == n) { if (!keep || keep(c)) add(c); return; }
      for (size_t i = from; i < ls.size(); i++) { c.push_back(ls[i]); rec(d + 1, i, c); c.pop_back(); }
    };
    Clause c;
    rec(0, 0, c);
  }
};

inline vector<Term> atoms_of(const vector<string> &preds, const vector<vector<Term>> &args) {
  vector<Term> o;
  for (auto &p : preds)
    for (auto &a : args) o.push_back(Term::F(p, a));
  return o;
}
