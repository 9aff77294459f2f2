// First-order clauses: syntax, printing, parsing of gkc's clause output, and evaluation of a
// clause in every interpretation of a small domain (the reference semantics).
#pragma once
#include "core.hpp"

struct Term {
  bool var = false;
  string name;
  vector<Term> args;
  static Term V(const string &n) { Term t; t.var = true; t.name = n; return t; }
  static Term F(const string &n, vector<Term> a = {}) { Term t; t.name = n; t.args = std::move(a); return t; }
  bool operator==(const Term &o) const { return var == o.var && name == o.name && args == o.args; }
  bool operator<(const Term &o) const {
    if (var != o.var) return var < o.var;
    if (name != o.name) return name < o.name;
    return args < o.args;
  }
  void vars(std::set<string> &s) const {
    if (var) s.insert(name);
    for (auto &a : args) a.vars(s);
  }
  int depth() const {
    int d = 0;
    for (auto &a : args) d = std::max(d, a.depth());
    return d + 1;
  }
  int size() const { int n = 1; for (auto &a : args) n += a.size(); return n; }
};

struct Lit {
  bool pos = true;
  Term atom;  // "=" for equality
  bool operator==(const Lit &o) const { return pos == o.pos && atom == o.atom; }
  bool operator<(const Lit &o) const {
    if (pos != o.pos) return pos > o.pos;
    return atom < o.atom;
  }
};
typedef vector<Lit> Clause;

inline string str(const Term &t) {
  string s = t.name;
  if (!t.args.empty()) {
    s += "(";
    for (size_t i = 0; i < t.args.size(); i++) s += (i ? "," : "") + str(t.args[i]);
    s += ")";
  }
  return s;
}
inline string str(const Lit &l) {
  if (l.atom.name == "=" && l.atom.args.size() == 2)
    return str(l.atom.args[0]) + (l.pos ? " = " : " != ") + str(l.atom.args[1]);
  return (l.pos ? "" : "-") + str(l.atom);
}
inline string str(const Clause &c) {
  string s;
  for (size_t i = 0; i < c.size(); i++) s += (i ? " | " : "") + str(c[i]);
  return s;
}
inline string str(const vector<Clause> &cs) {
  string s;
  for (auto &c : cs) s += (s.empty() ? "" : " ") + str(c) + ".";
  return s;
}

// canonical variable names by first occurrence (in the given literal order)
inline void renvars(Term &t, std::map<string, string> &m) {
  if (t.var) {
    auto it = m.find(t.name);
    if (it == m.end()) it = m.emplace(t.name, "X" + std::to_string(m.size())).first;
    t.name = it->second;
  }
  for (auto &a : t.args) renvars(a, m);
}
// canonical form: the least over all literal permutations (clauses are tiny)
inline Clause canon(const Clause &c) {
  vector<int> p(c.size());
  for (size_t i = 0; i < p.size(); i++) p[i] = i;
  Clause best;
  bool have = false;
  do {
    Clause d;
    std::map<string, string> m;
    for (int i : p) { Lit l = c[i]; renvars(l.atom, m); d.push_back(l); }
    if (!have || d < best) { best = d; have = true; }
  } while (std::next_permutation(p.begin(), p.end()));
  return best;
}

// ------------------------------------------------------------- parsing gkc's output
struct PErr { string msg; };
struct ClauseParser {
  const string &s;
  size_t i = 0;
  explicit ClauseParser(const string &t) : s(t) {}
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++; }
  bool at(char c) { ws(); return i < s.size() && s[i] == c; }
  string name() {
    ws();
    size_t b = i;
    if (i < s.size() && (s[i] == '\'' || s[i] == '"')) {
      char q = s[i++];
      while (i < s.size() && s[i] != q) { if (s[i] == '\\') i++; i++; }
      if (i >= s.size()) throw PErr{"unterminated quote"};
      i++;
      return s.substr(b, i - b);
    }
    if (i < s.size() && s[i] == '=') { i++; return "="; }
    while (i < s.size() && !strchr(" ,()|\n", s[i])) {
      // a dot ends the clause when nothing but space or end follows
      if (s[i] == '.' && (i + 1 >= s.size() || s[i + 1] == ' ' || s[i + 1] == '\n')) break;
      i++;
    }
    if (i == b) throw PErr{"name expected at " + s.substr(b, 20)};
    return s.substr(b, i - b);
  }
  Term term() {
    Term t;
    t.name = name();
    if (t.name == "$pr" && i < s.size() && s[i] == '(') {  // gkc's wrapping of a proposition
      i++;
      t.name = name();
      if (!at(')')) throw PErr{"')' expected after $pr"};
      i++;
      return t;
    }
    if (t.name[0] == '?') { t.var = true; t.name = t.name.substr(t.name[1] == ':' ? 2 : 1); }
    else if (t.name[0] >= 'A' && t.name[0] <= 'Z') t.var = true;
    if (i < s.size() && s[i] == '(') {
      i++;
      t.var = false;
      if (at(')')) { i++; return t; }
      for (;;) {
        t.args.push_back(term());
        if (at(',')) { i++; continue; }
        if (at(')')) { i++; break; }
        throw PErr{"',' or ')' expected at " + s.substr(i, 20)};
      }
    }
    return t;
  }
  Lit lit() {
    Lit l;
    ws();
    while (i < s.size() && (s[i] == '-' || s[i] == '~') && !(i + 1 < s.size() && isdigit(s[i + 1]))) { l.pos = !l.pos; i++; ws(); }
    l.atom = term();
    ws();
    if (i < s.size() && (s[i] == '=' || (s[i] == '!' && i + 1 < s.size() && s[i + 1] == '='))) {
      bool neg = s[i] == '!';
      i += neg ? 2 : 1;
      Term r = term();
      Term e = Term::F("=", {l.atom, r});
      l.atom = e;
      if (neg) l.pos = !l.pos;
    }
    return l;
  }
  Clause clause() {
    Clause c;
    for (;;) {
      c.push_back(lit());
      ws();
      if (at('|')) { i++; continue; }
      break;
    }
    if (at('.')) i++;
    return c;
  }
};
inline Clause parse_clause(const string &s) {
  ClauseParser p(s);
  p.ws();
  if (s.compare(p.i, 5, "false") == 0) return {};
  return p.clause();
}

struct Step {
  int nr = 0;
  string rule;
  vector<int> parents;
  string text;  // clause text
  Clause cl;
  bool isfalse = false;
};
struct Answer { string text; vector<Step> steps; Clause cl; };
struct Output {
  bool found = false, notfound = false, parse_ok = true;
  int results = 0;  // number of "result:" lines
  string perr;
  vector<Answer> answers;  // one entry per printed proof
};

inline Output parse_output(const string &o) {
  Output r;
  size_t p = 0;
  string pend;
  bool inproof = false;
  while (p < o.size()) {
    size_t e = o.find('\n', p);
    if (e == string::npos) e = o.size();
    string l = o.substr(p, e - p);
    p = e + 1;
    if (l.compare(0, 7, "result:") == 0) {
      r.results++;
      inproof = false;
      if (l.find("proof found") != string::npos) r.found = true;
      if (l.find("not found") != string::npos) r.notfound = true;
    } else if (l.compare(0, 7, "answer:") == 0) {
      pend = l.substr(8);
      inproof = false;
    } else if (l.compare(0, 6, "proof:") == 0) {
      r.answers.emplace_back();
      r.answers.back().text = pend;
      try { if (!pend.empty()) r.answers.back().cl = parse_clause(pend); }
      catch (PErr &x) { r.parse_ok = false; r.perr = x.msg; }
      pend.clear();
      inproof = true;
    } else if (inproof && l.size() > 3 && l[0] == ' ' && strchr("0123456789 ", l[1])) {
      Step s;
      char *q;
      s.nr = strtol(l.c_str(), &q, 10);
      size_t i = q - l.c_str();
      if (i >= l.size() || l[i] != ':') continue;
      size_t b = l.find('[', i), c = l.find(']', i);
      if (b == string::npos || c == string::npos) { r.parse_ok = false; r.perr = l; continue; }
      string h = l.substr(b + 1, c - b - 1);
      size_t k = 0;
      bool first = true;
      while (k <= h.size()) {
        size_t m = h.find(',', k);
        if (m == string::npos) m = h.size();
        string w = h.substr(k, m - k);
        while (!w.empty() && w[0] == ' ') w.erase(0, 1);
        if (first) s.rule = w;
        else if (!w.empty() && isdigit(w[0])) s.parents.push_back(atoi(w.c_str()));
        first = false;
        k = m + 1;
      }
      s.text = l.substr(c + 1);
      while (!s.text.empty() && s.text[0] == ' ') s.text.erase(0, 1);
      try {
        s.cl = parse_clause(s.text);
        s.isfalse = s.cl.empty();
      } catch (PErr &x) { r.parse_ok = false; r.perr = x.msg + " in " + l; }
      r.answers.back().steps.push_back(s);
    } else if (inproof && l.empty()) {
    }
  }
  return r;
}

// ------------------------------------------------------------------- semantics
struct SymDef { string name; int arity; bool pred; };
typedef vector<u64> Bits;

inline bool bits_any(const Bits &b) { for (u64 x : b) if (x) return true; return false; }
inline Bits bits_and(const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[i] & b[i]; return r; }
inline bool bits_subset(const Bits &a, const Bits &b) { for (size_t i = 0; i < a.size(); i++) if (a[i] & ~b[i]) return false; return true; }

// All interpretations of a signature over domains 1..D; a clause's meaning is the bitset of
// the interpretations in which it is (universally) true.
struct Sem {
  vector<SymDef> syms;
  std::map<string, int> idx;
  struct Dom {
    int d;
    u64 count;
    int rowlen;
    vector<int> off;      // per symbol: offset of its table in a row
    vector<uint8_t> rows; // count * rowlen
    u64 bit0;             // first bit of this domain
  };
  vector<Dom> doms;
  u64 total = 0;
  size_t words = 0;
  std::unordered_map<string, Bits> memo;

  Sem() {}
  Sem(vector<SymDef> s, vector<int> ds) : syms(std::move(s)) {
    for (size_t i = 0; i < syms.size(); i++) idx[syms[i].name] = i;
    for (int d : ds) {
      Dom D;
      D.d = d;
      D.rowlen = 0;
      D.count = 1;
      vector<int> radix;
      for (auto &y : syms) {
        D.off.push_back(D.rowlen);
        int n = 1;
        for (int k = 0; k < y.arity; k++) n *= d;
        for (int k = 0; k < n; k++) {
          radix.push_back(y.pred ? 2 : d);
          D.count *= y.pred ? 2 : d;
        }
        D.rowlen += n;
      }
      D.bit0 = total;
      D.rows.resize(D.count * D.rowlen);
      vector<uint8_t> cur(D.rowlen, 0);
      for (u64 m = 0; m < D.count; m++) {
        memcpy(&D.rows[m * D.rowlen], cur.data(), D.rowlen);
        for (int k = 0; k < D.rowlen; k++) {
          if (++cur[k] < radix[k]) break;
          cur[k] = 0;
        }
      }
      total += D.count;
      doms.push_back(std::move(D));
    }
    words = (total + 63) / 64;
  }
  Bits ones() const {
    Bits b(words, ~0ull);
    if (total & 63) b.back() = (1ull << (total & 63)) - 1;
    return b;
  }
  // compiled term: postfix evaluation over a row
  struct CT { int kind; int sym; int nargs; };  // kind 0 var(sym=slot), 1 fun
  bool compile(const Term &t, std::map<string, int> &vs, vector<CT> &o) const {
    if (t.var) {
      auto it = vs.emplace(t.name, (int)vs.size()).first;
      o.push_back({0, it->second, 0});
      return true;
    }
    auto it = idx.find(t.name);
    if (it == idx.end() || syms[it->second].arity != (int)t.args.size() || syms[it->second].pred) return false;
    for (auto &a : t.args) if (!compile(a, vs, o)) return false;
    o.push_back({1, it->second, (int)t.args.size()});
    return true;
  }
  struct CL { bool pos; bool eq; int sym; int n; vector<vector<CT>> a; };
  static int ev(const Dom &D, const uint8_t *row, const vector<CT> &c, const int *as) {
    int st[64], sp = 0;
    for (auto &x : c) {
      if (x.kind == 0) st[sp++] = as[x.sym];
      else {
        int v = 0;
        for (int k = 0; k < x.nargs; k++) v = v * D.d + st[sp - x.nargs + k];
        sp -= x.nargs;
        st[sp++] = row[D.off[x.sym] + v];
      }
    }
    return st[0];
  }
  // false when the clause uses symbols outside the signature
  bool bits(const Clause &c, Bits &res) {
    string key = str(c);
    auto m = memo.find(key);
    if (m != memo.end()) { res = m->second; return !res.empty() || words == 0; }
    std::map<string, int> vs;
    vector<CL> ls;
    bool ok = true;
    for (auto &l : c) {
      CL x;
      x.pos = l.pos;
      x.eq = l.atom.name == "=" && l.atom.args.size() == 2;
      x.sym = -1;
      x.n = l.atom.args.size();
      if (!x.eq) {
        if (l.atom.var) { ok = false; break; }
        auto it = idx.find(l.atom.name);
        if (it == idx.end() || !syms[it->second].pred || syms[it->second].arity != x.n) { ok = false; break; }
        x.sym = it->second;
      }
      for (auto &a : l.atom.args) {
        x.a.emplace_back();
        if (!compile(a, vs, x.a.back())) ok = false;
      }
      if (!ok) break;
      ls.push_back(x);
    }
    if (!ok || vs.size() > 10) { memo[key] = Bits(); res = Bits(); return false; }
    res.assign(words, 0);
    int nv = vs.size();
    for (auto &D : doms) {
      int as[12];
      for (u64 m2 = 0; m2 < D.count; m2++) {
        const uint8_t *row = &D.rows[m2 * D.rowlen];
        for (int k = 0; k < nv; k++) as[k] = 0;
        bool all = true;
        for (;;) {
          bool t = false;
          for (auto &x : ls) {
            bool v;
            if (x.eq) v = ev(D, row, x.a[0], as) == ev(D, row, x.a[1], as);
            else {
              int q = 0;
              for (auto &a : x.a) q = q * D.d + ev(D, row, a, as);
              v = row[D.off[x.sym] + q];
            }
            if (v == x.pos) { t = true; break; }
          }
          if (!t) { all = false; break; }
          int k = 0;
          while (k < nv) {
            if (++as[k] < D.d) break;
            as[k++] = 0;
          }
          if (k == nv) break;
        }
        if (all) res[(D.bit0 + m2) >> 6] |= 1ull << ((D.bit0 + m2) & 63);
      }
    }
    if (memo.size() * (words * 8 + 64) < (96u << 20)) memo[key] = res;
    return true;
  }
  string show(u64 bit) const {
    for (auto &D : doms)
      if (bit >= D.bit0 && bit < D.bit0 + D.count) {
        const uint8_t *row = &D.rows[(bit - D.bit0) * D.rowlen];
        string s = "domain{0.." + std::to_string(D.d - 1) + "}";
        for (size_t i = 0; i < syms.size(); i++) {
          s += " " + syms[i].name + "=[";
          int n = (i + 1 < syms.size() ? D.off[i + 1] : D.rowlen) - D.off[i];
          for (int k = 0; k < n; k++) s += std::to_string(row[D.off[i] + k]);
          s += "]";
        }
        return s;
      }
    return "?";
  }
  string first_model(const Bits &b) const {
    for (u64 i = 0; i < total; i++)
      if (b[i >> 6] >> (i & 63) & 1) return show(i);
    return "none";
  }
};
