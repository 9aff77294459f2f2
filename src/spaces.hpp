// Problem spaces: finite sets of clause sets over a small signature, with the reference semantics.
#pragma once
#include "gen.hpp"

struct Space {
  string name, desc;
  vector<SymDef> sig;
  Pool P;
  Sem S;                 // semantics used to find models (satisfiability certificates)
  vector<Bits> pb;       // models of each pool clause
  vector<vector<int>> fixed;  // explicit list of problems (indices), or
  vector<int> ks;        // subset sizes enumerated
  vector<Subsets> U;
  u64 nprob = 0;
  bool exact = false;    // no model in S means unsatisfiable
  // for non-exact spaces: Herbrand refutation over a bounded set of ground instances
  vector<Term> hterms;
  bool equality = false;

  void finish(vector<int> doms, vector<int> ks_) {
    S = Sem(sig, doms);
    pb.resize(P.cls.size());
    for (size_t i = 0; i < pb.size(); i++)
      if (!S.bits(P.cls[i], pb[i])) { fprintf(stderr, "space %s: clause outside the signature: %s\n", name.c_str(), str(P.cls[i]).c_str()); exit(3); }
    ks = ks_;
    for (int k : ks) { U.emplace_back(P.cls.size(), k); nprob += U.back().count(); }
    nprob += fixed.size();
    init_partners();
  }
  vector<int> get(u64 i) const {
    for (auto &u : U) {
      if (i < u.count()) return u.get(i);
      i -= u.count();
    }
    return fixed[i];
  }
  vector<Clause> clauses(const vector<int> &s) const {
    vector<Clause> c;
    for (int j : s) c.push_back(P.cls[j]);
    return c;
  }
  Bits models(const vector<int> &s) const {
    Bits m = S.ones();
    for (int j : s) m = bits_and(m, pb[j]);
    return m;
  }
  // does every literal have a possible resolution partner in the set (purity closure keeps everything)?
  mutable vector<vector<char>> partner;  // [lit id][lit id]
  vector<vector<int>> litid;
  vector<Lit> lits;
  static bool unif(Term s_, Term t_) {
    std::map<string, Term> sb;
    std::function<Term(const Term &)> walk = [&](const Term &t) -> Term {
      Term x = t;
      while (x.var && sb.count(x.name)) x = sb[x.name];
      return x;
    };
    std::function<bool(const string &, const Term &)> occ = [&](const string &v, const Term &t0) -> bool {
      Term t = walk(t0);
      if (t.var) return t.name == v;
      for (auto &a : t.args) if (occ(v, a)) return true;
      return false;
    };
    std::function<bool(const Term &, const Term &)> go = [&](const Term &a0, const Term &b0) -> bool {
      Term a = walk(a0), b = walk(b0);
      if (a.var && b.var && a.name == b.name) return true;
      if (a.var) { if (occ(a.name, b)) return false; sb[a.name] = b; return true; }
      if (b.var) { if (occ(b.name, a)) return false; sb[b.name] = a; return true; }
      if (a.name != b.name || a.args.size() != b.args.size()) return false;
      for (size_t i = 0; i < a.args.size(); i++) if (!go(a.args[i], b.args[i])) return false;
      return true;
    };
    return go(s_, t_);
  }
  static Term prefix(const Term &t, const string &p) {
    Term o = t;
    if (o.var) o.name = p + o.name;
    for (auto &a : o.args) a = prefix(a, p);
    return o;
  }
  void init_partners() {
    std::map<Lit, int> ix;
    for (auto &c : P.cls) {
      litid.emplace_back();
      for (auto &l : c) {
        auto it = ix.emplace(l, (int)lits.size()).first;
        if (it->second == (int)lits.size()) lits.push_back(l);
        litid.back().push_back(it->second);
      }
    }
    partner.assign(lits.size(), vector<char>(lits.size(), 0));
    for (size_t i = 0; i < lits.size(); i++)
      for (size_t j = 0; j < lits.size(); j++)
        partner[i][j] = lits[i].pos != lits[j].pos && unif(prefix(lits[i].atom, "l"), prefix(lits[j].atom, "r"));
  }
  bool impure(const vector<int> &s) const {  // no literal of the set is pure
    for (size_t i = 0; i < s.size(); i++)
      for (int l : litid[s[i]]) {
        bool ok = false;
        if (lits[l].atom.name == "=") ok = true;
        for (size_t j = 0; j < s.size() && !ok; j++)
          for (int m : litid[s[j]]) if (partner[l][m]) { ok = true; break; }
        if (!ok) return false;
      }
    return true;
  }
  bool minimal_unsat(const vector<int> &s) const {
    for (size_t d = 0; d < s.size(); d++) {
      Bits m = S.ones();
      for (size_t j = 0; j < s.size(); j++) if (j != d) m = bits_and(m, pb[s[j]]);
      if (!bits_any(m)) return false;
    }
    return true;
  }
  // the least domain-independent certificate of unsatisfiability we can give cheaply (no equality):
  // the ground instances over hterms are propositionally unsatisfiable
  bool herbrand_unsat(const vector<Clause> &cs) const {
    if (exact) return true;  // caller already knows there is no model in S
    if (hterms.empty()) return false;
    std::map<string, int> at;
    vector<vector<std::pair<int, bool>>> g;
    for (auto &c : cs) {
      std::set<string> vs;
      for (auto &l : c) l.atom.vars(vs);
      vector<string> v(vs.begin(), vs.end());
      vector<int> ix(v.size(), 0);
      for (;;) {
        std::map<string, const Term *> sb;
        for (size_t i = 0; i < v.size(); i++) sb[v[i]] = &hterms[ix[i]];
        vector<std::pair<int, bool>> gc;
        for (auto &l : c) {
          std::function<Term(const Term &)> ap = [&](const Term &t) -> Term {
            if (t.var) return *sb[t.name];
            Term o;
            o.name = t.name;
            for (auto &a : t.args) o.args.push_back(ap(a));
            return o;
          };
          string k = str(ap(l.atom));
          auto it = at.emplace(k, (int)at.size()).first;
          gc.push_back({it->second, l.pos});
        }
        g.push_back(gc);
        size_t k = 0;
        while (k < v.size() && ++ix[k] == (int)hterms.size()) ix[k++] = 0;
        if (k == v.size()) break;
      }
    }
    // DPLL without frills (tiny instances); oracle of the harness, not a decision about gkc itself
    vector<int> as(at.size(), -1);
    std::function<bool()> sat = [&]() -> bool {
      vector<int> trail;
      for (;;) {
        bool ch = false;
        int br = -1;
        for (auto &c : g) {
          int un = 0, ul = -1;
          bool t = false;
          for (size_t i = 0; i < c.size(); i++) {
            int v = as[c[i].first];
            if (v < 0) { un++; ul = i; } else if (v == (int)c[i].second) t = true;
          }
          if (t) continue;
          if (un == 0) { for (int x : trail) as[x] = -1; return false; }
          if (un == 1) { as[c[ul].first] = c[ul].second; trail.push_back(c[ul].first); ch = true; }
          else br = c[ul].first;
        }
        if (ch) continue;
        if (br < 0) { for (int x : trail) as[x] = -1; return true; }
        for (int v = 0; v < 2; v++) {
          as[br] = v;
          if (sat()) { as[br] = -1; for (int x : trail) as[x] = -1; return true; }
        }
        as[br] = -1;
        for (int x : trail) as[x] = -1;
        return false;
      }
    };
    return !sat();
  }
};

inline Term V(const char *n) { return Term::V(n); }
inline Term F(const char *n, vector<Term> a = {}) { return Term::F(n, a); }
inline Clause PC(const char *s) { string t = s; return parse_clause(t); }

// propositional: exact
inline Space sp_prop(int nat, int maxlen, vector<int> ks) {
  Space s;
  s.name = "prop" + std::to_string(nat);
  vector<Term> at;
  for (int i = 0; i < nat; i++) { string n(1, "pqrstu"[i]); s.sig.push_back({n, 0, true}); at.push_back(Term::F(n)); }
  for (int n = 1; n <= maxlen; n++) s.P.all(at, n);
  s.exact = true;
  s.finish({1}, ks);
  return s;
}

// function-free with a binary predicate: models over the constants decide it exactly.
// The Herbrand interpretations are the domain-2 interpretations with a=0, b=1, so constants are not symbols of Sem.
struct HerbSem {};

inline Space sp_monadic(bool big, vector<int> ks) {
  Space s;
  s.name = big ? "monadic-f" : "monadic-f-small";
  Term X = V("X"), Y = V("Y"), a = F("a"), b = F("b");
  auto f = [](Term t) { return Term::F("f", {t}); };
  s.sig = {{"a", 0, false}, {"f", 1, false}, {"p", 1, true}, {"q", 1, true}};
  vector<vector<Term>> ar = {{a}, {X}, {f(X)}, {f(a)}};
  if (big) { ar.push_back({b}); s.sig.push_back({"b", 0, false}); }
  auto at = atoms_of({"p", "q"}, ar);
  s.P.all(at, 1);
  auto at2 = at;
  for (auto &t : atoms_of({"p", "q"}, {{Y}, {f(Y)}})) at2.push_back(t);
  s.P.all(at2, 2);
  s.hterms = {a, f(a), f(f(a))};
  if (big) for (auto t : {b, f(b)}) s.hterms.push_back(t);
  s.finish({1, 2}, ks);
  return s;
}

inline Space sp_rel(int maxlen, vector<int> ks) {
  Space s;
  s.name = "relational";
  Term X = V("X"), Y = V("Y"), Z = V("Z"), a = F("a"), b = F("b");
  s.sig = {{"a", 0, false}, {"b", 0, false}, {"r", 2, true}, {"p", 1, true}};
  auto at = atoms_of({"r"}, {{a, b}, {a, X}, {X, b}, {X, Y}, {X, X}, {a, a}});
  at.push_back(F("p", {X}));
  at.push_back(F("p", {a}));
  s.P.all(at, 1);
  auto at2 = at;
  at2.push_back(F("r", {Y, X}));
  at2.push_back(F("r", {Y, Z}));
  at2.push_back(F("p", {Y}));
  s.P.all(at2, 2);
  if (maxlen > 2) {
    s.P.add(PC("-r(X,Y) | -r(Y,Z) | r(X,Z)."));
    s.P.add(PC("r(X,Y) | r(Y,X) | p(X)."));
    s.P.add(PC("-r(X,Y) | -r(Y,X) | -p(X)."));
    s.P.add(PC("-p(X) | p(Y) | r(X,Y)."));
    s.P.add(PC("-p(X) | -p(Y) | -r(X,Y)."));
  }
  s.hterms = {a, b};
  s.finish({1, 2}, ks);
  return s;
}

inline Space sp_eq(bool big, vector<int> ks) {
  Space s;
  s.name = big ? "equality" : "equality-small";
  s.equality = true;
  Term X = V("X"), Y = V("Y"), a = F("a"), b = F("b"), c = F("c");
  auto f = [](Term t) { return Term::F("f", {t}); };
  auto E = [](Term l, Term r) { return Term::F("=", {l, r}); };
  s.sig = {{"a", 0, false}, {"b", 0, false}, {"c", 0, false}, {"f", 1, false}, {"p", 1, true}};
  vector<Term> eqs = {E(a, b), E(b, c), E(f(a), a), E(f(a), b), E(f(b), c), E(f(X), X), E(f(X), a), E(f(f(X)), X), E(f(f(a)), a), E(X, a), E(f(X), f(Y)), E(X, Y)};
  vector<Term> ps = {F("p", {a}), F("p", {b}), F("p", {f(a)}), F("p", {X}), F("p", {f(X)})};
  vector<Term> at = eqs;
  for (auto &t : ps) at.push_back(t);
  s.P.all(at, 1);
  vector<Term> at2 = {E(a, b), E(f(a), b), E(f(X), X), E(X, a), E(f(X), f(Y)), E(X, Y), F("p", {a}), F("p", {X}), F("p", {f(X)}), F("p", {Y})};
  if (big) { at2.push_back(E(f(f(X)), X)); at2.push_back(E(b, c)); at2.push_back(F("p", {f(a)})); }
  s.P.all(at2, 2);
  s.P.add(PC("-p(X) | -p(Y) | X = Y."));
  s.finish({1, 2, 3}, ks);
  return s;
}

// binary predicate with a function: occurs check, chains of bindings
inline Space sp_relf(vector<int> ks) {
  Space s;
  s.name = "binary-f";
  Term X = V("X"), Y = V("Y"), a = F("a");
  auto f = [](Term t) { return Term::F("f", {t}); };
  auto R = [](Term l, Term r) { return Term::F("r", {l, r}); };
  s.sig = {{"a", 0, false}, {"f", 1, false}, {"r", 2, true}};
  vector<Term> ts = {X, Y, a, f(X), f(Y), f(a)}, at;
  for (auto &l : ts) for (auto &r : ts) at.push_back(R(l, r));
  s.P.all(at, 1);
  vector<Term> at2 = {R(X, X), R(X, Y), R(Y, X), R(a, X), R(X, a), R(X, f(X)), R(f(X), X), R(X, f(Y)), R(f(X), f(Y)), R(a, f(X)), R(f(a), X)};
  s.P.all(at2, 2);
  s.P.add(PC("-r(X,Y) | -r(Y,Z) | r(X,Z)."));
  s.P.add(PC("-r(X,Y) | r(Y,X) | r(X,X)."));
  s.P.add(PC("r(X,Y) | r(Y,X) | r(Y,Y)."));
  s.P.add(PC("-r(X,Y) | -r(Y,Z) | -r(Z,X)."));
  s.P.add(PC("-r(X,Y) | -r(X,f(Y)) | r(f(X),Y)."));
  s.hterms = {a, f(a), f(f(a))};
  s.finish({1, 2}, ks);
  return s;
}

// clauses of up to three literals: factoring, merging, subsumption between longer clauses
inline Space sp_long(vector<int> ks) {
  Space s;
  s.name = "three-literal";
  Term X = V("X"), Y = V("Y"), a = F("a");
  auto f = [](Term t) { return Term::F("f", {t}); };
  s.sig = {{"a", 0, false}, {"f", 1, false}, {"p", 1, true}, {"q", 2, true}};
  vector<Term> at = {F("p", {X}), F("p", {Y}), F("p", {a}), F("p", {f(X)}), F("q", {X, Y}), F("q", {X, X}), F("q", {Y, X}), F("q", {X, f(X)}), F("q", {a, X})};
  s.P.all(at, 1);
  s.P.all(at, 2);
  vector<Term> at3 = {F("p", {X}), F("p", {Y}), F("p", {f(X)}), F("q", {X, Y}), F("q", {Y, X})};
  s.P.all(at3, 3);
  s.hterms = {a, f(a), f(f(a))};
  s.finish({1, 2}, ks);
  return s;
}

// equational theories: every subset of the axioms with every goal
inline Space sp_alg(int maxax) {
  Space s;
  s.name = "algebra";
  s.equality = true;
  s.sig = {{"e", 0, false}, {"a", 0, false}, {"i", 1, false}, {"g", 2, false}};
  const char *ax[] = {"g(X,Y) = g(Y,X).", "g(g(X,Y),Z) = g(X,g(Y,Z)).", "g(e,X) = X.", "g(X,e) = X.", "g(i(X),X) = e.", "g(X,i(X)) = e.",
                      "g(X,X) = X.", "g(X,X) = e.", "i(i(X)) = X.", "i(X) = X.", "g(X,g(X,Y)) = Y.", "g(a,X) = X.", "i(e) = e.", "g(a,a) = e.", "i(g(X,Y)) = g(i(Y),i(X))."};
  const char *gl[] = {"g(e,a) != a.", "g(a,e) != a.", "g(a,i(a)) != e.", "i(i(a)) != a.", "g(a,a) != a.", "i(e) != e.", "g(a,e) != g(e,a).", "a != e.", "g(a,g(a,a)) != g(g(a,a),a).",
                      "i(a) != a.", "g(i(a),g(a,e)) != e.", "g(a,g(a,e)) != e.", "X != a.", "g(X,a) != e.", "g(X,X) != a.", "i(X) != X.", "X != i(Y).", "g(e,X) != a | g(X,e) != a."};
  int na = sizeof ax / sizeof *ax, ng = sizeof gl / sizeof *gl;
  for (auto x : ax) s.P.add(PC(x));
  for (auto x : gl) s.P.add(PC(x));
  vector<vector<int>> fx;
  for (int m = 1; m < (1 << na); m++) {
    if (__builtin_popcount(m) > maxax) continue;
    for (int j = 0; j < ng; j++) {
      vector<int> v;
      for (int k = 0; k < na; k++) if (m >> k & 1) v.push_back(k);
      v.push_back(na + j);
      fx.push_back(v);
    }
  }
  s.fixed = fx;
  s.finish({1, 2}, {});
  return s;
}
