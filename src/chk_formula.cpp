// C06 C07 C08: formulas. Every formula of the stated spaces is given to gkc's own clausifier (the real
// main with -clausify); the printed clauses are compared with the formula in every interpretation over
// small domains, the introduced functions and predicates being existentially quantified.
#include "fol.hpp"
#include <chrono>
#include <sys/stat.h>
namespace {
enum Op { ATOM, NOT, AND, OR, IMP, RIMP, EQV, XOR, NOR, NAND, ALLX, ALLY, ALLZ, EXX, EXY, EXZ };
int qvar(int op) { return (op - ALLX) % 3; }
// terms: 0 X, 1 Y, 2 a, 3 b, 4 f(X), 5 f(Y), 6 f(a), 7 Z
struct AtomD { int pred; int t[2]; };  // pred: 0 p 1 q 2 r 3 s 4 = 5 $true 6 $false
const char *PN[] = {"p", "q", "r", "s", "=", "$true", "$false"};
const int PA[] = {1, 1, 2, 0, 2, 0, 0};
struct Node { unsigned char op; int a, b; };
vector<Node> N;
vector<AtomD> A;
int atom(int p, int t0 = 0, int t1 = 0) {
  for (size_t i = 0; i < A.size(); i++) if (A[i].pred == p && (PA[p] < 1 || A[i].t[0] == t0) && (PA[p] < 2 || A[i].t[1] == t1)) {
    for (size_t k = 0; k < N.size(); k++) if (N[k].op == ATOM && N[k].a == (int)i) return k;
  }
  A.push_back({p, {t0, t1}});
  N.push_back({ATOM, (int)A.size() - 1, 0});
  return N.size() - 1;
}
int mk(int op, int a, int b = 0) { N.push_back({(unsigned char)op, a, b}); return N.size() - 1; }

// ---- meaning
struct Interp { int D, a, b; int f[3]; unsigned p, q, r, s; };
int tv(int t, const Interp &I, const int *e) {
  switch (t) { case 7: return e[2]; case 0: case 1: return e[t]; case 2: return I.a; case 3: return I.b; case 4: return I.f[e[0]]; case 5: return I.f[e[1]]; default: return I.f[I.a]; }
}
bool pv(int p, int x, int y, const Interp &I) {
  switch (p) { case 0: return I.p >> x & 1; case 1: return I.q >> x & 1; case 2: return I.r >> (x * I.D + y) & 1; case 3: return I.s; case 4: return x == y; case 5: return true; default: return false; }
}
bool ev(int n, const Interp &I, int *e) {
  const Node &k = N[n];
  switch (k.op) {
    case ATOM: { const AtomD &d = A[k.a]; return pv(d.pred, PA[d.pred] ? tv(d.t[0], I, e) : 0, PA[d.pred] > 1 ? tv(d.t[1], I, e) : 0, I); }
    case NOT: return !ev(k.a, I, e);
    case AND: return ev(k.a, I, e) && ev(k.b, I, e);
    case OR: return ev(k.a, I, e) || ev(k.b, I, e);
    case IMP: return !ev(k.a, I, e) || ev(k.b, I, e);
    case RIMP: return ev(k.a, I, e) || !ev(k.b, I, e);
    case EQV: return ev(k.a, I, e) == ev(k.b, I, e);
    case XOR: return ev(k.a, I, e) != ev(k.b, I, e);
    case NOR: return !(ev(k.a, I, e) || ev(k.b, I, e));
    case NAND: return !(ev(k.a, I, e) && ev(k.b, I, e));
    default: {
      int v = qvar(k.op), old = e[v];
      bool all = k.op <= ALLZ, r = all;
      for (int d = 0; d < I.D && r == all; d++) { e[v] = d; r = ev(k.a, I, e); }
      e[v] = old;
      return r;
    }
  }
}
// free variables (bit 0 X, bit 1 Y) and symbols used (p q r s a b f)
int freev(int n) {
  const Node &k = N[n];
  if (k.op == ATOM) {
    int m = 0;
    for (int i = 0; i < PA[A[k.a].pred]; i++) { int t = A[k.a].t[i]; if (t == 0 || t == 4) m |= 1; if (t == 1 || t == 5) m |= 2; if (t == 7) m |= 4; }
    return m;
  }
  if (k.op == NOT) return freev(k.a);
  if (k.op >= ALLX) return freev(k.a) & ~(1 << qvar(k.op));
  return freev(k.a) | freev(k.b);
}
int syms(int n) {
  const Node &k = N[n];
  if (k.op == ATOM) {
    int p = A[k.a].pred, m = p < 4 ? 1 << p : 0;
    for (int i = 0; i < PA[p]; i++) { int t = A[k.a].t[i]; if (t == 2 || t == 6) m |= 16; if (t == 3) m |= 32; if (t >= 4 && t < 7) m |= 64; }
    return m;
  }
  return k.op == NOT || k.op >= ALLX ? syms(k.a) : syms(k.a) | syms(k.b);
}
bool evc(int n, int fv, const Interp &I) {  // free variables as universal
  int e[3];
  for (int x = 0; x < (fv & 1 ? I.D : 1); x++)
    for (int y = 0; y < (fv & 2 ? I.D : 1); y++)
      for (int z = 0; z < (fv & 4 ? I.D : 1); z++) { e[0] = x; e[1] = y; e[2] = z; if (!ev(n, I, e)) return false; }
  return true;
}
template <class F> bool interps(int D, int m, F f) {
  auto rng = [&](int bit, unsigned n) { return m & bit ? n : 1u; };
  Interp I;
  I.D = D;
  unsigned nf = D == 1 ? 1 : D == 2 ? 4 : 27;
  for (unsigned p = 0; p < rng(1, 1u << D); p++) for (unsigned q = 0; q < rng(2, 1u << D); q++) for (unsigned r = 0; r < rng(4, 1u << D * D); r++)
    for (unsigned s = 0; s < rng(8, 2); s++) for (unsigned a = 0; a < rng(16, D); a++) for (unsigned b = 0; b < rng(32, D); b++)
      for (unsigned g = 0; g < rng(64, nf); g++) {
        I.p = p; I.q = q; I.r = r; I.s = s; I.a = a; I.b = b;
        unsigned h = g;
        for (int i = 0; i < D; i++) { I.f[i] = h % D; h /= D; }
        if (!f(I)) return false;
      }
  return true;
}
string istr(const Interp &I) {
  char b[200];
  snprintf(b, sizeof b, "domain 0..%d, a=%d b=%d f=%d,%d p=%x q=%x r=%x s=%x (bit sets)", I.D - 1, I.a, I.b, I.f[0], I.D > 1 ? I.f[1] : 0, I.p, I.q, I.r, I.s);
  return b;
}

// ---- clauses printed by gkc
struct CT { int kind; int ix; vector<CT> args; };  // 0 variable, 1 a, 2 b, 3 f, 4 new function
struct CL { bool pos; int pred; vector<CT> args; };  // pred as above, 100+k: new predicate
struct CC { int nv; vector<CL> l; };
struct Prog {
  vector<CC> cls;
  vector<string> nfn, npn;
  vector<int> nfa, npa;
  string err;
  std::map<string, int> vars;
  CT term(const Term &t) {
    CT c;
    c.kind = 0; c.ix = 0;
    if (t.var) { auto it = vars.emplace(t.name, (int)vars.size()).first; c.ix = it->second; return c; }
    if (t.name == "a" && t.args.empty()) { c.kind = 1; return c; }
    if (t.name == "b" && t.args.empty()) { c.kind = 2; return c; }
    for (auto &x : t.args) c.args.push_back(term(x));
    if (t.name == "f" && t.args.size() == 1) { c.kind = 3; return c; }
    if (t.name.compare(0, 3, "$sk")) { err = "unknown symbol " + t.name; return c; }
    c.kind = 4;
    for (size_t i = 0; i < nfn.size(); i++) if (nfn[i] == t.name) { if (nfa[i] != (int)t.args.size()) err = "arity of " + t.name; c.ix = i; return c; }
    c.ix = nfn.size();
    nfn.push_back(t.name);
    nfa.push_back(t.args.size());
    return c;
  }
  void add(const Clause &c) {
    CC r;
    vars.clear();
    for (auto &l : c) {
      CL x;
      x.pos = l.pos;
      x.pred = -1;
      for (auto &t : l.atom.args) x.args.push_back(term(t));
      for (int p = 0; p < 7; p++) if (l.atom.name == PN[p] && (int)x.args.size() == PA[p]) x.pred = p;
      if (x.pred < 0) {
        if (l.atom.name.compare(0, 3, "$df")) { err = "unknown predicate " + l.atom.name; return; }
        size_t i = 0;
        for (; i < npn.size(); i++) if (npn[i] == l.atom.name) { if (npa[i] != (int)x.args.size()) err = "arity of " + l.atom.name; break; }
        if (i == npn.size()) { npn.push_back(l.atom.name); npa.push_back(x.args.size()); }
        x.pred = 100 + i;
      }
      r.l.push_back(x);
    }
    r.nv = vars.size();
    cls.push_back(r);
  }
  // ---- is there a choice of the new functions and predicates that satisfies all clauses?
  const Interp *I;
  vector<int> foff, poff;
  vector<signed char> cell;
  bool setup(int D) {
    foff.clear(); poff.clear();
    int n = 0;
    auto pw = [&](int k) { int x = 1; while (k-- > 0) x *= D; return x; };
    for (int a : nfa) { foff.push_back(n); n += pw(a); }
    for (int a : npa) { poff.push_back(n); n += pw(a); }
    if (n > 4000) { err = "too many new symbols"; return false; }
    cell.assign(n, -1);
    return true;
  }
  int unk, env[16];
  bool unkpred;
  int tval(const CT &t) {
    switch (t.kind) {
      case 0: return env[t.ix];
      case 1: return I->a;
      case 2: return I->b;
      case 3: { int x = tval(t.args[0]); return x < 0 ? -1 : I->f[x]; }
      default: {
        int k = 0;
        for (auto &a : t.args) { int x = tval(a); if (x < 0) return -1; k = k * I->D + x; }
        int v = cell[foff[t.ix] + k];
        if (v < 0) { unk = foff[t.ix] + k; unkpred = false; }
        return v;
      }
    }
  }
  int lval(const CL &l) {  // 1, 0, -1 unknown
    int v[8], n = 0;
    for (auto &a : l.args) { v[n] = tval(a); if (v[n] < 0) return -1; n++; }
    int r;
    if (l.pred < 100) r = pv(l.pred, n ? v[0] : 0, n > 1 ? v[1] : 0, *I);
    else {
      int k = 0;
      for (int i = 0; i < n; i++) k = k * I->D + v[i];
      int o = poff[l.pred - 100] + k;
      r = cell[o];
      if (r < 0) { unk = o; unkpred = true; return -1; }
    }
    return r == l.pos;
  }
  bool solve() {
    vector<int> trail;
    auto undo = [&] { for (int c : trail) cell[c] = -1; };
    for (;;) {
      bool changed = false;
      int branch = -1;
      bool bp = false;
      for (auto &c : cls) {
        int tot = 1;
        for (int i = 0; i < c.nv; i++) tot *= I->D;
        for (int g = 0; g < tot; g++) {
          int h = g;
          for (int i = 0; i < c.nv; i++) { env[i] = h % I->D; h /= I->D; }
          bool sat = false;
          int nu = 0, uc = -1;
          bool up = false, us = false;
          for (auto &l : c.l) {
            int v = lval(l);
            if (v == 1) { sat = true; break; }
            if (v < 0) { nu++; uc = unk; up = unkpred; us = l.pos; }
          }
          if (sat) continue;
          if (!nu) { undo(); return false; }
          if (nu == 1 && up) { cell[uc] = us; trail.push_back(uc); changed = true; continue; }
          if (branch < 0) { branch = uc; bp = up; }
        }
      }
      if (changed) continue;
      if (branch < 0) { undo(); return true; }
      for (int v = 0; v < (bp ? 2 : I->D); v++) {
        cell[branch] = v;
        if (solve()) { cell[branch] = -1; undo(); return true; }
      }
      cell[branch] = -1;
      undo();
      return false;
    }
  }
};

// ---- printing
enum Syn { TPTP, TPTPMIN, GKC, GKCMIN, GKCQ, JSON, JSON1, JSON2 };
const char *OPN[] = {"", "~", "&", "|", "=>", "<=", "<=>", "<~>", "~|", "~&"};
string tstr(int t, bool js) {
  static const char *T[] = {"X", "Y", "a", "b", "f(X)", "f(Y)", "f(a)", "Z"};
  static const char *J[] = {"\"?:X\"", "\"?:Y\"", "\"a\"", "\"b\"", "[\"f\",\"?:X\"]", "[\"f\",\"?:Y\"]", "[\"f\",\"a\"]", "\"?:Z\""};
  return js ? J[t] : T[t];
}
string astr(const AtomD &d) {
  if (d.pred == 4) return tstr(d.t[0], 0) + " = " + tstr(d.t[1], 0);
  string s = PN[d.pred];
  if (PA[d.pred]) s += "(" + tstr(d.t[0], 0) + (PA[d.pred] > 1 ? "," + tstr(d.t[1], 0) : "") + ")";
  return s;
}
// the variables of a quantifier, of adjacent ones of the same kind too if join; m: what they stand before
string qlist(int n, bool join, const char *pre, const char *post, int &m) {
  int op = N[n].op, used = 0;
  string v;
  for (m = n;; m = N[m].a) {
    int q = qvar(N[m].op);
    if (m != n && !(join && N[m].op >= ALLX && (N[m].op <= ALLZ) == (op <= ALLZ) && !(used >> q & 1))) return v;
    used |= 1 << q;
    v += string(v.empty() ? "" : ",") + pre + "XYZ"[q] + post;
  }
}
void chain(int n, int op, vector<int> &v) {
  if (N[n].op != op) { v.push_back(n); return; }
  chain(N[n].a, op, v);
  chain(N[n].b, op, v);
}
// minimal: TPTP's rules: quantifiers and negation bind tightest, & and | chain with themselves, nothing else mixes
string pr(int n, bool mini, const char *neg, bool top) {
  const Node &k = N[n];
  auto unit = [&](int m) {  // as operand of a quantifier or negation
    if (!mini) return "(" + pr(m, mini, neg, true) + ")";
    const Node &x = N[m];
    return x.op >= AND && x.op <= NAND ? "(" + pr(m, mini, neg, true) + ")" : pr(m, mini, neg, true);
  };
  switch (k.op) {
    case ATOM: return astr(A[k.a]);
    case NOT:
      if (mini && N[k.a].op == ATOM && A[N[k.a].a].pred == 4) {
        string s = astr(A[N[k.a].a]);
        return s.replace(s.find(" = "), 3, " != ");
      }
      return neg + unit(k.a);
    case ALLX: case ALLY: case ALLZ: case EXX: case EXY: case EXZ: {
      int m;
      string v = qlist(n, mini, "", "", m);
      return string(k.op <= ALLZ ? "! [" : "? [") + v + "]: " + unit(m);
    }
    default: {
      auto opnd = [&](int m) {
        const Node &x = N[m];
        if (mini && (x.op < AND || x.op > NAND || (x.op == k.op && (k.op == AND || k.op == OR)))) return pr(m, mini, neg, false);
        return "(" + pr(m, mini, neg, true) + ")";
      };
      return opnd(k.a) + " " + OPN[k.op] + " " + opnd(k.b);
    }
  }
}
// JSON: three sets of spellings; in the second and third also chains, lists of literals, rules with several conditions
string prj(int n, int alt) {
  const Node &k = N[n];
  switch (k.op) {
    case ATOM: {
      const AtomD &d = A[k.a];
      if (d.pred == 4) return "[" + tstr(d.t[0], 1) + ",\"=\"," + tstr(d.t[1], 1) + "]";
      if (d.pred > 4) return alt ? string("\"") + PN[d.pred] + "\"" : d.pred == 5 ? "true" : "false";
      if (!PA[d.pred] && alt == 2) return string("\"") + PN[d.pred] + "\"";
      string s = string("[\"") + PN[d.pred] + "\"";
      for (int i = 0; i < PA[d.pred]; i++) s += "," + tstr(d.t[i], 1);
      return s + "]";
    }
    case NOT:
      if (N[k.a].op == ATOM) {
        const AtomD &d = A[N[k.a].a];
        static const char *NE[] = {"!=", "-=", "~="};
        if (alt && d.pred == 4) return "[" + tstr(d.t[0], 1) + ",\"" + NE[alt] + "\"," + tstr(d.t[1], 1) + "]";
        if (alt && d.pred < 4) { string s = prj(k.a, alt); return s.insert(s[0] == '"' ? 1 : 2, "-"); }
      }
      return string(alt == 0 ? "[\"~\"," : alt == 1 ? "[\"not\"," : "[\"-\",") + prj(k.a, alt) + "]";
    case ALLX: case ALLY: case ALLZ: case EXX: case EXY: case EXZ: {
      int m;
      string v = qlist(n, alt, "\"?:", "\"", m);
      return string(k.op <= ALLZ ? "[\"forall\",[" : "[\"exists\",[") + v + "]," + prj(m, alt) + "]";
    }
    default: {
      string o = OPN[k.op];
      if (alt == 1 && k.op == AND) o = "and";
      if (alt == 1 && k.op == OR) o = "or";
      if (alt && (k.op == AND || k.op == OR)) {
        vector<int> v;
        chain(n, k.op, v);
        bool lists = k.op == OR;
        for (int x : v) { string t = prj(x, alt); if (t[0] != '[' || !(N[x].op == ATOM || (N[x].op == NOT && N[N[x].a].op == ATOM && t.compare(0, 3, "[\"-") == 0 && t[3] != '"'))) lists = false; }
        string s;
        for (size_t i = 0; i < v.size(); i++) s += (i ? lists && alt == 2 ? "," : ",\"" + o + "\"," : "[") + prj(v[i], alt);
        return s + "]";
      }
      if (alt && k.op == IMP) {
        vector<int> v;
        if (alt == 1) chain(k.a, AND, v); else v.push_back(k.a);
        string s = "[\"if\"";
        for (int x : v) s += "," + prj(x, alt);
        s += ",\"then\"";
        v.clear();
        if (alt == 1) chain(k.b, OR, v); else v.push_back(k.b);
        for (int x : v) s += "," + prj(x, alt);
        return s + "]";
      }
      return "[" + prj(k.a, alt) + ",\"" + o + "\"," + prj(k.b, alt) + "]";
    }
  }
}
string text(int n, int syn) {
  switch (syn) {
    case TPTP: return pr(n, false, "~", true);
    case TPTPMIN: return pr(n, true, "~", true);
    case GKC: return pr(n, false, "-", true);
    case GKCMIN: return pr(n, true, "-", true);
    case GKCQ: {  // ?x for X
      string t = pr(n, true, "~", true), r;
      for (char c : t) { if (c >= 'X' && c <= 'Z') { r += '?'; r += c + 32; } else r += c; }
      return r;
    }
    default: return prj(n, syn - JSON);
  }
}
bool js(int syn) { return syn >= JSON; }

enum Role { AX, CONJ, NEGCONJ, HYP, ASM, LEMMA, ANNOT, CNF, CNFNEG, CNFANNOT, QUEST, BARE };
struct Case {
  int n; int syn; int role;
  bool neg() const { return role == CONJ || role == QUEST; }
  string printed() const { return role == CONJ || role == NEGCONJ || role == QUEST || role == CNFNEG ? "negated_conjecture" : role == HYP || role == ASM ? "assumption" : "axiom"; }
  bool operator==(const Case &o) const { return n == o.n && syn == o.syn && role == o.role; }
};
bool clauselike(int n) {
  vector<int> v;
  chain(n, OR, v);
  for (int x : v) if (!(N[x].op == ATOM || (N[x].op == NOT && N[N[x].a].op == ATOM))) return false;
  return true;
}
bool fits(int f, int syn, int role) {
  if ((role == CONJ || role == QUEST) && freev(f)) return false;
  if (role >= CNF && role <= CNFANNOT && !clauselike(f)) return false;
  return true;
}
const char *RN[] = {"axiom", "conjecture", "negated_conjecture", "hypothesis", "assumption", "lemma", "axiom", "axiom", "negated_conjecture", "hypothesis", "question", "axiom"};
string statement(const Case &c, const string &name) {
  string t = text(c.n, c.syn);
  if (js(c.syn)) {
    if (c.role == BARE) return t;
    if (c.role == QUEST) return "{\"@name\":\"" + name + "\",\"@question\":" + t + "}";
    return "{\"@name\":\"" + name + "\"," + (c.role != AX ? string("\"@role\":\"") + RN[c.role] + "\"," : "") + "\"@logic\":" + t + "}";
  }
  if (c.role == BARE) return "mk" + name + "(a).\n" + t + ".";
  string k = c.role >= CNF && c.role <= CNFANNOT ? "cnf(" : "fof(", an = c.role == ANNOT || c.role == CNFANNOT ? ",file('/a b/c.p',unknown),[x(y)]" : "";
  return k + name + "," + RN[c.role] + ",(" + t + ")" + an + ").";
}
string scratchdir;
string put(const string &t, bool json) {
  string f = scratchdir + "/f" + std::to_string(getpid()) + (json ? ".js" : ".txt");
  FILE *o = fopen(f.c_str(), "w");
  fwrite(t.data(), 1, t.size(), o);
  fclose(o);
  return f;
}
RunResult gkc(vector<string> a) {
  RunOpt o;
  o.wall = 60;
  o.clock_step = 1;
  a.push_back("-mbsize");
  a.push_back("40");
  return run_gkc(a, o);
}
// clause texts by formula name
std::map<string, vector<std::pair<string, string>>> bynames(const string &out) {
  std::map<string, vector<std::pair<string, string>>> m;
  size_t p = 0;
  string cur;
  while (p < out.size()) {
    size_t e = out.find('\n', p);
    if (e == string::npos) e = out.size();
    string l = out.substr(p, e - p);
    p = e + 1;
    if (l.compare(0, 4, "cnf(")) continue;
    size_t c1 = l.find(','), c2 = l.find(',', c1 + 1), z = l.rfind(").");
    if (c2 == string::npos || z == string::npos) continue;
    string nm = l.substr(4, c1 - 4), role = l.substr(c1 + 1, c2 - c1 - 1), t = l.substr(c2 + 1, z - c2 - 1);
    if (nm.size() > 1 && nm[0] == '\'' && nm.back() == '\'') nm = nm.substr(1, nm.size() - 2);
    if (t.size() > 1 && t[0] == '(' && t.back() == ')') t = t.substr(1, t.size() - 2);
    if (t.compare(0, 2, "mk") == 0 && t.find("(a)") != string::npos) { cur = t.substr(2, t.find('(') - 2); m[cur]; continue; }
    if (nm.compare(0, 3, "cl_") == 0 && !cur.empty()) nm = cur;
    m[nm].push_back({role, t});
  }
  return m;
}
// "" or what is wrong
string compare(const Case &c, const vector<std::pair<string, string>> &cls, int maxD, u64 &tests) {
  Prog P;
  for (auto &x : cls) {
    Clause cl;
    try { cl = parse_clause(x.second); } catch (PErr &e) { return "unreadable clause " + x.second + ": " + e.msg; }
    P.add(cl);
    if (!P.err.empty()) return P.err + " in clause " + x.second;
    if (x.first != (c.role == CNFANNOT ? string("assumption") : c.printed())) return "role " + x.first + " of clause " + x.second;
  }
  int m = syms(c.n), fv = freev(c.n);
  for (auto &cc : P.cls) if (cc.nv > 15) return "too many variables";
  string bad;
  for (int D = 1; D <= maxD; D++) {
    if (!P.setup(D)) return P.err;
    interps(D, m, [&](const Interp &I) {
      bool want = evc(c.n, fv, I) != c.neg();
      P.I = &I;
      bool got = P.solve();
      tests++;
      if (got != want) {
        bad = string("the clauses are ") + (got ? "satisfiable" : "not satisfiable") + " where the " + (c.neg() ? "negated " : "") + "formula is " + (want ? "true" : "false") + ": " + istr(I);
        return false;
      }
      return true;
    });
    if (!bad.empty()) return bad;
  }
  return "";
}
string join(const vector<std::pair<string, string>> &v) { string s; for (auto &x : v) s += x.first + ": " + x.second + "\n"; return s; }
// stages: the options of the runs before the final -clausify -tptp; each output is the next input
struct Plan { vector<vector<string>> pre; string name; };
void batch(Ctx &c, const char *id, const vector<Case> &cs, const Plan &pl, int maxD) {
  string t;
  bool j = js(cs[0].syn);
  if (j) t = "[\n";
  for (size_t i = 0; i < cs.size(); i++) t += statement(cs[i], "f" + std::to_string(i)) + (j && i + 1 < cs.size() ? ",\n" : "\n");
  if (j) t += "]\n";
  string in = t, log;
  RunResult r;
  bool ok = true;
  for (auto &st : pl.pre) {
    vector<string> a = st;
    a.push_back(put(t, j));
    r = gkc(a);
    c.add("runs_of_gkc");
    if (r.sig || r.timeout || r.code) { ok = false; break; }
    t = r.out;
    j = std::find(st.begin(), st.end(), "-json") != st.end();
    log += t;
  }
  if (ok) {
    r = gkc({"-clausify", "-tptp", put(t, j)});
    c.add("runs_of_gkc");
    ok = !r.sig && !r.timeout && !r.code;
  }
  auto m = bynames(r.out);
  if (js(cs[0].syn)) for (size_t i = 0; i < cs.size(); i++) if (cs[i].role == BARE) m["f" + std::to_string(i)] = m["frm_" + std::to_string(i + 1)];
  if (ok) for (size_t i = 0; i < cs.size(); i++) if (cs.size() > 1 && !m.count("f" + std::to_string(i)) ) { u64 q = 0; if (!compare(cs[i], {}, 1, q).empty()) ok = false; }
  if (!ok) {
    if (cs.size() > 1) { for (auto &x : cs) batch(c, id, {x}, pl, maxD); return; }
    c.add("evaluations");
    violation(c, pl.name + ":" + in, "gkc " + string(r.sig ? "crashes on" : r.timeout ? "does not end on" : "refuses or loses") + " the formula (" + pl.name + "): " + in, {}, log + r.out);
    return;
  }
  for (size_t i = 0; i < cs.size(); i++) {
    c.add("evaluations");
    u64 n = 0;
    auto &v = m["f" + std::to_string(i)];
    string e = compare(cs[i], v, maxD, n);
    c.add("interpretations", n);
    if (v.size() && !(v.size() == 1 && v[0].second.find('|') == string::npos)) c.add("distinct_nontrivial");
    if (!e.empty()) {
      string s = statement(cs[i], "f0");
      if (cs.size() > 1) { batch(c, id, {cs[i]}, pl, maxD); if (c.nviol) continue; }
      violation(c, pl.name + ":" + s, e + " (" + pl.name + "): " + s, {}, log + join(v));
    }
  }
}

// ---- spaces
// all formulas with exactly k operators over the atoms, in levels
vector<vector<int>> levels(const vector<int> &atoms, const vector<int> &bin, const vector<int> &un, int k) {
  vector<vector<int>> L(k + 1);
  L[0] = atoms;
  for (int s = 1; s <= k; s++) {
    for (int u : un) for (int x : L[s - 1]) {
      if (u == NOT && N[x].op == NOT && s > 2) continue;
      L[s].push_back(mk(u, x));
    }
    for (int o : bin) for (int i = 0; i < s; i++) for (int x : L[i]) for (int y : L[s - 1 - i]) L[s].push_back(mk(o, x, y));
  }
  return L;
}
const vector<int> BIN = {AND, OR, IMP, RIMP, EQV, XOR, NOR, NAND}, UN = {NOT, ALLX, ALLY, EXX, EXY};
vector<int> atoms0() { return {atom(0, 0), atom(0, 1), atom(1, 0), atom(2, 0, 1), atom(2, 1, 0), atom(3), atom(0, 2), atom(4, 0, 1), atom(4, 0, 2), atom(1, 4)}; }
vector<int> uptok(const vector<vector<int>> &L, size_t k) { vector<int> v; for (size_t i = 0; i <= k && i < L.size(); i++) v.insert(v.end(), L[i].begin(), L[i].end()); return v; }

void sweep(Driver &d, const char *id, const vector<int> &fs, const vector<Case> &tmpl, const Plan &pl, int maxD, size_t bs = 64) {
  // tmpl: the syntaxes and roles each formula is given in
  vector<std::pair<size_t, size_t>> bat;
  vector<Case> all;
  for (auto &t : tmpl) {
    size_t b = all.size();
    for (int f : fs) if (fits(f, t.syn, t.role)) all.push_back({f, t.syn, t.role});
    for (; b < all.size(); b += bs) bat.push_back({b, std::min(b + bs, all.size())});  // a batch has one syntax
  }
  d.cnt["cases_" + pl.name] += all.size();
  auto t0 = std::chrono::steady_clock::now();
  d.pfor(bat.size(), [&](u64 i, Ctx &c) { batch(c, id, vector<Case>(all.begin() + bat[i].first, all.begin() + bat[i].second), pl, maxD); }, 1);
  if (getenv("GKV_TIMES")) fprintf(stderr, "%s: %zu cases %.1f s\n", pl.name.c_str(), all.size(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
}
// formulas that are large enough for definitions: nested equivalences over literals and quantified atoms
vector<int> deflist(bool q) {
  vector<int> lit = {atom(0, 0), atom(3), mk(NOT, atom(1, 0)), mk(EXY, atom(2, 0, 1))}, e;
  if (!q) lit.push_back(mk(ALLY, atom(2, 1, 0)));
  for (int o : {EQV, XOR}) for (int x : lit) for (int y : lit) e.push_back(mk(o, x, y));
  vector<int> r;
  for (int o : {EQV, XOR}) for (int x : e) for (int y : e) r.push_back(mk(o, x, y));
  // as conjunctions of three parts on both sides of a disjunction
  vector<int> cj;
  for (int x : lit) for (int y : lit) for (int z : {lit[0], lit[3]}) cj.push_back(mk(AND, x, mk(OR, y, z)));
  for (int x : cj) for (int y : cj) r.push_back(mk(OR, mk(AND, x, e[3]), mk(AND, y, e[7])));
  vector<int> w;
  for (int x : r) w.push_back(freev(x) ? mk(x % 2 ? ALLX : EXX, x) : x);
  return w;
}

void c06(Driver &d) {
  scratchdir = d.scratch;
  bool q = d.quick();
  Plan pl{{}, "clausify"};
  {
    auto L = levels(atoms0(), BIN, UN, 2);
    vector<int> v = uptok(L, 2);
    sweep(d, "C06", v, {{0, TPTP, AX}}, pl, 2);
    sweep(d, "C06", v, {{0, TPTP, CONJ}}, pl, 2);
    N.clear(); A.clear();
  }
  {
    vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(3)};
    auto L = levels(at, BIN, UN, 3);
    sweep(d, "C06", L[3], {{0, TPTP, AX}, {0, TPTP, CONJ}}, pl, 2);
    N.clear(); A.clear();
    L = levels({atom(0, 0), atom(2, 0, 1)}, {AND, OR, IMP, EQV}, UN, 4);
    sweep(d, "C06", L[4], {{0, TPTP, AX}, {0, TPTP, CONJ}}, pl, 2);
    N.clear(); A.clear();
    L = levels({atom(0, 0), atom(5), atom(6), atom(3)}, BIN, {NOT, ALLX, EXX}, 2);
    sweep(d, "C06", uptok(L, 2), {{0, TPTP, AX}, {0, TPTP, CONJ}}, pl, 2);
    N.clear(); A.clear();
  }
  {
    // quantifier prefixes before two- and one-place atoms and up to one connective
    vector<int> at = {atom(2, 0, 1), atom(2, 1, 7), atom(2, 0, 0), atom(0, 7)}, m;
    auto L = levels(at, {AND, OR, EQV}, {NOT}, 1);
    m = uptok(L, 1);
    vector<int> v;
    for (int b : m) {
      vector<int> cur = {b};
      for (int k = 0; k < (q ? 4 : 5); k++) {
        vector<int> nx;
        for (int x : cur) for (int o : {ALLX, ALLY, ALLZ, EXX, EXY, EXZ}) { if (N[x].op == o) continue; nx.push_back(mk(o, x)); }
        if (k < 3) v.insert(v.end(), nx.begin(), nx.end());
        else for (int x : nx) if (!freev(x)) v.push_back(x);
        cur = nx;
      }
    }
    sweep(d, "C06", v, {{0, TPTP, AX}, {0, TPTP, CONJ}}, pl, 2);
    N.clear(); A.clear();
  }
  {
    // quantifiers over three variables at once
    vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(2, 1, 7), atom(1, 7)}, v;
    auto L = levels(at, {AND, OR, EQV}, {NOT}, 2);
    for (int b : L[2]) {
      if (N[b].op == NOT || N[b].op == ATOM) continue;
      v.push_back(mk(ALLX, mk(ALLY, mk(ALLZ, b))));
      v.push_back(mk(EXX, mk(EXY, mk(EXZ, b))));
      v.push_back(mk(ALLZ, mk(EXX, mk(EXY, b))));
      if (!q) { v.push_back(mk(EXZ, mk(ALLX, mk(ALLY, b)))); v.push_back(mk(EXX, mk(ALLZ, mk(ALLY, b)))); v.push_back(mk(ALLX, mk(EXZ, mk(EXY, b)))); }
    }
    sweep(d, "C06", v, {{0, TPTPMIN, AX}, {0, TPTPMIN, CONJ}}, pl, 2);
    N.clear(); A.clear();
  }
  {
    vector<int> v = deflist(q);
    sweep(d, "C06", v, {{0, TPTP, AX}, {0, TPTP, CONJ}}, pl, 2, 8);
    N.clear(); A.clear();
  }
  if (!q) {
    vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(5), atom(6), atom(4, 0, 4)};
    auto L = levels(at, BIN, UN, 3);
    vector<int> v = uptok(L, 2);
    sweep(d, "C06", v, {{0, TPTP, AX}, {0, TPTP, CONJ}}, pl, 3);
    vector<int> w;
    for (int x : L[3]) if (!freev(x)) w.push_back(x);
    sweep(d, "C06", w, {{0, TPTP, AX}}, pl, 2);
  }
  d.texts["spaces"] = "all formulas with up to two connectives/quantifiers over ten atoms (one- and two-place predicates, proposition, constant, function, equality), as axiom and as conjecture; all with up to three over two atoms; quantifier prefixes up to length three over a connective; quantifiers over three variables at once over two connectives; nested equivalences and disjunctions of conjunctions that make gkc introduce definitions; interpretations over domains of one and two elements (three where listed)";
  d.samples.push_back("fof(f,conjecture,(! [X]: ((p(X)) <=> (? [Y]: (r(X,Y))))).");
}
// ---- the same text with other white space and comments between its tokens
vector<string> tokens(const string &t) {
  vector<string> v;
  static const char *OPS[] = {"<=>", "<~>", "~|", "~&", "=>", "<=", "!=", "-=", "~="};
  for (size_t i = 0; i < t.size();) {
    if (isspace((unsigned char)t[i])) { i++; continue; }
    size_t e = i + 1;
    if (t[i] == '"' || t[i] == '\'') { e = t.find(t[i], i + 1) + 1; }
    else if (isalnum((unsigned char)t[i]) || t[i] == '$' || t[i] == '_' || (t[i] == '?' && i + 1 < t.size() && islower((unsigned char)t[i + 1]))) { while (e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_' || t[e] == '$')) e++; }
    else for (const char *o : OPS) if (!t.compare(i, strlen(o), o)) { e = i + strlen(o); break; }
    v.push_back(t.substr(i, e - i));
    i = e;
  }
  return v;
}
bool word(const string &t) { return isalnum((unsigned char)t[0]) || t[0] == '$' || t[0] == '_' || t[0] == '?'; }
// may they stand side by side?
bool touch(const string &a, const string &b) {
  if (word(a) && word(b)) return false;
  static const char *OK = "()[],.:\"";
  return strchr(OK, a[0]) || (strchr(OK, b[0]) && b[0] != ':') || (a[0] != '?' && word(b));
}
void whites(Driver &d, const vector<int> &fs) {
  struct W { Case c; int fill, gap; };
  vector<W> ws;
  static const char *FT[] = {"", " ", "\n", "\t", "\r\n", "  %c. '\n", " /* c. ' */", " /**\n * %c\n **/ ", "\f"}, *FJ[] = {"", " ", "\n", "\t", "\r\n", "//c \"\n", "/* c, */", " /**\n * [c\n **/ ", " "};
  vector<Case> cs;
  for (int f : fs) for (auto &t : vector<Case>{{0, TPTPMIN, AX}, {0, GKCMIN, BARE}, {0, GKCQ, BARE}, {0, TPTP, CONJ}, {0, TPTPMIN, ANNOT}, {0, TPTPMIN, CNF}, {0, JSON, AX}, {0, JSON1, CONJ}, {0, JSON2, BARE}}) if (fits(f, t.syn, t.role)) cs.push_back({f, t.syn, t.role});
  for (auto &c : cs) {
    string t = statement(c, "f0");
    int n = tokens(js(c.syn) ? "[" + t + "]" : t).size();
    for (int f = 0; f < 9; f++) for (int g = -1; g <= n; g++) if (js(c.syn) ? f != 8 : f != 8) ws.push_back({c, f, g});
  }
  d.cnt["cases_white_space"] = ws.size();
  d.pfor(ws.size(), [&](u64 i, Ctx &c) {
    const W &w = ws[i];
    bool j = js(w.c.syn);
    string t = statement(w.c, "f0"), r;
    if (j) t = "[" + t + "]";
    vector<string> tk = tokens(t);
    for (size_t k = 0; k <= tk.size(); k++) {
      string f = (int)k == w.gap || w.gap < 0 ? (j ? FJ : FT)[w.fill] : " ";
      if (f.empty() && k && k < tk.size() && !touch(tk[k - 1], tk[k])) f = " ";
      if (f.empty() && k && k < tk.size() && tk[k - 1] == "." && !j) f = "\n";
      r += f;
      if (k < tk.size()) r += tk[k];
    }
    RunResult x = gkc({"-clausify", "-tptp", put(r, j)});
    c.add("runs_of_gkc");
    c.add("evaluations");
    c.add("distinct_nontrivial");
    auto m = bynames(x.out);
    u64 n = 0;
    string e = x.sig || x.timeout || x.code ? "gkc refuses the text" : compare(w.c, m[j && w.c.role == BARE ? "frm_1" : "f0"], 2, n);
    if (!e.empty()) violation(c, "white:" + r, e + ": " + r, {}, x.out);
  }, 64);
}
// ---- several sources
void sources(Driver &d) {
  vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(3), atom(4, 0, 2), atom(1, 2)};
  vector<int> F = {mk(ALLX, mk(IMP, at[0], mk(EXY, at[1]))), mk(EQV, at[2], at[4]), mk(OR, at[3], at[0]), mk(EXX, mk(AND, at[0], mk(NOT, at[4]))), at[4], mk(NOT, at[2])};
  const int K = 7;  // text file, js file, second text file, -text, -jstext, included text file, included js file
  u64 tri = 6 * 5 * 4, tot = tri * K * K * K;
  d.cnt["cases_sources"] = tot;
  d.pfor(tot, [&](u64 i, Ctx &c) {
    int k[3] = {(int)(i % K), (int)(i / K % K), (int)(i / K / K % K)};
    u64 t = i / K / K / K;
    int f[3];
    f[0] = t % 6; t /= 6;
    f[1] = t % 5; if (f[1] >= f[0]) f[1]++;
    t /= 5;
    for (int x = 0, left = t; x < 6; x++) if (x != f[0] && x != f[1]) { if (!left--) { f[2] = x; break; } }
    string body[7], base = scratchdir + "/s" + std::to_string(getpid());
    vector<Case> cs;
    for (int s = 0; s < 3; s++) {
      bool j = k[s] == 1 || k[s] == 4 || k[s] == 6;
      Case x{F[f[s]], j ? JSON + s : (s & 1 ? GKCMIN : TPTPMIN), s == 2 && !freev(F[f[s]]) ? CONJ : AX};
      cs.push_back(x);
      string q = statement(x, "f" + std::to_string(s));
      body[k[s]] += j ? (body[k[s]].empty() ? "" : ",\n") + q : q + "\n";
    }
    auto wr = [&](const string &nm, const string &tx) { FILE *o = fopen(nm.c_str(), "w"); fwrite(tx.data(), 1, tx.size(), o); fclose(o); };
    vector<string> a = {"-clausify", "-tptp"};
    string bn = base.substr(base.rfind('/') + 1);
    bool sub = t & 1;  // included files in a directory of their own
    if (sub) { bn = "sub/" + bn; mkdir((scratchdir + "/sub").c_str(), 0777); }
    string ib = scratchdir + "/" + bn;
    size_t marks = 0;
    if (!body[5].empty()) { wr(ib + "i.txt", body[5]); wr(ib + "j.txt", "s1(a)."); body[2] = "include('" + bn + "i.txt').\ninclude('" + bn + "j.txt').\n" + body[2]; marks++; }
    if (!body[6].empty()) {
      marks++;
      wr(ib + "i.js", "[" + body[6] + "]"); wr(ib + "k.txt", "s1(a)."); body[1] = "{\"@include\":\"" + bn + "i.js\"},\n{\"@include\":\"" + bn + "k.txt\"}" + (body[1].empty() ? "" : ",\n" + body[1]); }
    if (!body[0].empty()) { wr(base + "a.txt", body[0]); a.push_back(base + "a.txt"); }
    if (!body[1].empty()) { wr(base + "b.js", "[" + body[1] + "]"); a.push_back(base + "b.js"); }
    if (!body[2].empty()) { wr(base + "c.txt", body[2]); a.push_back(base + "c.txt"); }
    if (!body[3].empty()) { a.push_back("-text"); a.push_back(body[3]); }
    if (!body[4].empty()) { a.push_back("-jstext"); a.push_back("[" + body[4] + "]"); }
    RunResult x = gkc(a);
    c.add("runs_of_gkc");
    c.add("evaluations");
    c.add("distinct_nontrivial");
    string tx;
    for (auto &s : a) tx += " " + s;
    for (int s = 0; s < 7; s++) if (!body[s].empty()) tx += "\nsource " + std::to_string(s) + ": " + body[s];
    auto m = bynames(x.out);
    for (int s = 0; s < 3; s++) if (k[s] >= 5) { string nm = "f" + std::to_string(s); auto &v = m["$inc_" + nm]; m[nm].insert(m[nm].end(), v.begin(), v.end()); v.clear(); }
    if (x.sig || x.timeout || x.code) { violation(c, "sources:" + std::to_string(i), "gkc refuses its sources:" + tx, {}, x.out); return; }
    size_t n = 0;
    for (int s = 0; s < 3; s++) {
      u64 u = 0;
      auto &v = m["f" + std::to_string(s)];
      n += v.size();
      string e = v.empty() ? "lost" : compare(cs[s], v, 2, u);
      if (!e.empty()) { violation(c, "sources:" + std::to_string(i), e + " (statement " + std::to_string(s) + ")" + tx, {}, x.out); return; }
    }
    size_t all = 0;
    for (auto &v : m) all += v.second.size();
    if (all != n + marks) violation(c, "sources:" + std::to_string(i), (all > n + marks ? "clauses of no statement" : "the second included file is lost") + tx, {}, x.out);
  }, 64);
}
// ---- the spelling of symbols, strings, numbers and lists
const char *SCH[] = {"a", "A", "1", "'", "\"", "\\", "?", ":", "#", "~", "-", "$", "=", " ", ".", "%", "/", "*", "[", "(", ",", "@", "_", "\xc3\xa4", "\n", "!", "|", "{", "\t"};
string escq(const string &s, char q) { string r(1, q); for (char ch : s) { if (ch == '\\' || ch == q) r += '\\'; r += ch; } return r + q; }
string escj(const string &s) { string r = "\""; for (char ch : s) { if (ch == '\n') { r += "\\n"; continue; } if (ch == '\t') { r += "\\t"; continue; } if (ch == '\\' || ch == '"') r += '\\'; r += ch; } return r + "\""; }
// symbols JSON has no spelling for: operators, and what it takes for a negated symbol, a variable or a string
bool injson(const string &s) {
  if (s[0] == '~' || s[0] == '-' || !s.compare(0, 2, "?:") || !s.compare(0, 2, "#:")) return false;
  for (const char *o : {"forall", "exists", "=", "@", "|", "!=", "/", "*", "&", "+", "<"}) if (s == o) return false;
  return true;
}
enum { KCONST, KFUN, KPRED, KPROP, KSTR, KTERM };
const char *KN[] = {"constant", "function", "predicate", "proposition", "string", "term"};
struct Sp { int kind; string s; };
string spfact(const Sp &x, size_t i) {
  string n = std::to_string(i);
  switch (x.kind) {
    case KCONST: return "p" + n + "(" + escq(x.s, '\'') + ")";
    case KFUN: return "p" + n + "(" + escq(x.s, '\'') + "(a))";
    case KPRED: return escq(x.s, '\'') + "(a" + n + ")";
    case KPROP: return "(" + escq(x.s, '\'') + " | a" + n + ")";
    case KSTR: return "p" + n + "(" + escq(x.s, '"') + ")";
  }
  return "p" + n + "(" + x.s + ")";
}
string spjson(const Sp &x, size_t i) {
  string n = std::to_string(i);
  switch (x.kind) {
    case KCONST: return "[\"p" + n + "\"," + escj(x.s) + "]";
    case KFUN: return "[\"p" + n + "\",[" + escj(x.s) + ",\"a\"]]";
    case KPRED: return "[" + escj(x.s) + ",\"a" + n + "\"]";
    case KPROP: return "[" + escj(x.s) + ",\"|\",\"a" + n + "\"]";
    case KSTR: return "[\"p" + n + "\"," + escj("#:" + x.s) + "]";
  }
  return "[\"p" + n + "\"," + x.s + "]";
}
// runs the plan on the source; false: some run failed
bool chain(Ctx &c, const Plan &pl, string &t, bool &j, string &log) {
  for (auto &st : pl.pre) {
    vector<string> a = st;
    a.push_back(put(t, j));
    auto r = gkc(a);
    c.add("runs_of_gkc");
    log += r.out;
    if (r.sig || r.timeout || r.code) return false;
    t = r.out;
    j = std::find(st.begin(), st.end(), "-json") != st.end();
  }
  return true;
}
const char *UNITST = "{\"strategy\":[\"unit\"],\"max_seconds\":1}";
// after the plan every symbol is still the symbol it was: the rules spell it as the source did
bool spelled(Ctx &c, const vector<Sp> &v, size_t a, size_t b, const Plan &pl, bool json, string &log) {
  string t = json ? "[\n" : "", rules, goal;
  for (size_t i = a; i < b; i++) {
    t += json ? "{\"@name\":\"n" + std::to_string(i) + "\",\"@logic\":" + spjson(v[i], i) + "}" + (i + 1 < b ? ",\n" : "\n]\n") : "fof(n" + std::to_string(i) + ",axiom," + spfact(v[i], i) + ").\n";
    Sp y = v[i];
    rules += "fof(r" + std::to_string(i) + ",axiom," + spfact(y, i) + " => g" + std::to_string(i) + ").\n";
    if (y.kind == KPROP) rules += "fof(r" + std::to_string(i) + ",axiom,~a" + std::to_string(i) + ").\n";
    goal += (i > a ? " & g" : "g") + std::to_string(i);
  }
  bool j = json;
  if (!chain(c, pl, t, j, log)) return false;
  auto r = gkc({"-print", "10", "-strategytext", UNITST, put(t, j), "-text", rules + "fof(c,conjecture," + goal + ").\n"});
  c.add("runs_of_gkc");
  log += r.out;
  return r.out.find("proof found") != string::npos;
}
void spell(Ctx &c, const vector<Sp> &v, size_t a, size_t b, const Plan &pl, bool json) {
  string log;
  if (spelled(c, v, a, b, pl, json, log)) { c.add("evaluations", b - a); c.add("distinct_nontrivial", b - a); c.add("cases_spelling", b - a); return; }
  if (b - a > 1) { size_t m = (a + b) / 2; spell(c, v, a, m, pl, json); spell(c, v, m, b, pl, json); return; }
  c.add("evaluations");
  violation(c, string("spelling:") + KN[v[a].kind] + ":" + pl.name + (json ? "j:" : "t:") + v[a].s, string("the ") + KN[v[a].kind] + " " + escj(v[a].s) + (json ? ", written in JSON," : "") + " is not the same after: " + pl.name, {}, log);
}
void spellings(Driver &d) {
  vector<string> ct = {"-convert", "-tptp"}, cj = {"-convert", "-json"}, kt = {"-clausify", "-tptp"}, kj = {"-clausify", "-json"}, kp = {"-clausify"};
  vector<Plan> pls = {{{}, "read"}, {{ct}, "convert to TPTP"}, {{cj}, "convert to JSON"}, {{kt}, "clausify to TPTP"}, {{kj}, "clausify to JSON"}, {{kp}, "clausify"}, {{ct, cj, ct, kj}, "four conversions"}};
  vector<string> names;
  for (auto x : SCH) names.push_back(x);
  for (auto x : SCH) for (auto y : SCH) names.push_back(string(x) + y);
  size_t two = names.size();
  for (auto x : {"aA1", "$sk", "a_1", "A_1", "$$a", "$true", "$false", "true", "false", "null", "and", "or", "not", "forall", "exists", "$nil", "fof", "cnf", "include", "a b c", "http://a.b/c#d", "''", "'\\''", "\\\\'", "@role", "0", "10", "1.5", "-1", "1e5", "2020-01-01"}) names.push_back(x);
  for (int l : {63, 64, 65, 255, 256, 999, 1000, 1001, 1999, 2000, 2001, 5000}) names.push_back(string(l, 'b')), names.push_back(string(l, '\'')), names.push_back(string(l - 1, 'b') + "\\"), names.push_back(" " + string(l - 1, 'b'));
  if (!d.quick()) for (auto x : SCH) for (auto y : SCH) for (auto z : SCH) names.push_back(string(x) + y + z);
  { std::set<string> seen; vector<string> u; for (auto &x : names) if (seen.insert(x).second) u.push_back(x); names = u; }
  vector<string> terms = {"[]", "[a]", "[a,b]", "[[a],b]", "[a,[b]]", "[[],[[]]]", "f([a,b])", "[f([a]),g(b,[c])]", "[1,2.5]", "[\"s\",'T']", "0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967297",
    "9223372036854775807", "-9223372036854775807", "268435455", "268435456", "-268435456", "-268435457", "0.5", "-0.5", "0.1", "0.30000000000000004", "123456789.125", "0.000000001", "100000000000000000000000000000000000000000000000.0", "-0.000001", "1.0", "3.14159265358979", "f(1,-1,0.25)"};
  // the same number must keep its value and its kind
  vector<vector<Sp>> sets;
  for (int k = 0; k <= KSTR; k++) {
    vector<Sp> v, w;
    for (size_t i = 0; i < names.size(); i++) {
      const string &x = names[i];
      if ((k == KPRED || k == KPROP) && (x == "$true" || x == "$false" || x == "=" || x == "!=" || x == "include")) continue;
      if (k == KPRED || k == KFUN || k == KPROP) if (x == "and" || x == "or" || x == "not" || x == "forall" || x == "exists") continue;
      v.push_back({k, x});
    }
    sets.push_back(v);
  }
  vector<Sp> tv;
  for (auto &t : terms) tv.push_back({KTERM, t});
  sets.push_back(tv);
  struct Job { int set; size_t a, b; int plan; bool json; };
  vector<vector<Sp>> js;
  for (auto &v : sets) { vector<Sp> w; for (auto &x : v) if (x.kind == KSTR || (x.kind != KTERM && injson(x.s) && x.s != "true" && x.s != "false" && x.s != "null" && x.s != "@role" && x.s != "and" && x.s != "or" && x.s != "not")) w.push_back(x); js.push_back(w); }
  vector<Sp> jt;
  vector<Job> jobs;
  auto hasj = [](const Plan &p) { for (auto &s : p.pre) if (std::find(s.begin(), s.end(), "-json") != s.end()) return true; return false; };
  for (size_t s = 0; s < sets.size(); s++) for (size_t p = 0; p < pls.size(); p++) for (int json = 0; json < 2; json++) {
    if (json && s == KTERM) continue;
    if (json && std::find(pls[p].pre.begin(), pls[p].pre.end(), cj) != pls[p].pre.end()) continue;
    const auto &v = json || hasj(pls[p]) ? (s == KTERM ? sets[s] : js[s]) : sets[s];
    size_t n = v.size();
    for (size_t a = 0; a < n; a += 40) jobs.push_back({(int)s, a, std::min(a + 40, n), (int)p, (bool)json});
  }
  (void)two;
  d.pfor(jobs.size(), [&](u64 i, Ctx &c) {
    auto &j = jobs[i];
    const auto &v = j.json || hasj(pls[j.plan]) ? (j.set == KTERM ? sets[j.set] : js[j.set]) : sets[j.set];
    spell(c, v, j.a, j.b, pls[j.plan], j.json);
  }, 1);
  // and no two of them become the same: all pairs of constants, strings and numbers at once
  vector<Sp> all;
  for (size_t i = 0; i < names.size() && i < two + 31; i++) all.push_back({KCONST, names[i]}), all.push_back({KSTR, names[i]});
  for (size_t i = 10; i < terms.size(); i++) all.push_back({KTERM, terms[i]});
  d.pfor(pls.size() * 2, [&](u64 i, Ctx &c) {
    const Plan &pl = pls[i / 2];
    bool json = i % 2;
    if (json && std::find(pl.pre.begin(), pl.pre.end(), cj) != pl.pre.end()) return;
    vector<Sp> v;
    for (auto &x : all) if (!(json || hasj(pl)) || x.kind == KSTR || (x.kind == KTERM && !json) || (x.kind == KCONST && injson(x.s) && x.s != "true" && x.s != "false" && x.s != "null" && x.s != "and" && x.s != "or" && x.s != "not" && x.s != "@role")) v.push_back(x);
    string t = json ? "[\n" : "", q, log;
    for (size_t k = 0; k < v.size(); k++) {
      string n = std::to_string(k), tx = spfact(v[k], 0), o = spfact(v[k], 0);
      q += "q" + o.substr(2, o.size() - 3) + "," + n + ").\n";
      if (json) { string y = spjson(v[k], 0); t += "{\"@name\":\"n" + n + "\",\"@logic\":[\"p" + y.substr(4, y.size() - 5) + "," + n + "]}" + (k + 1 < v.size() ? ",\n" : "\n]\n"); }
      else t += "fof(n" + n + ",axiom,p" + tx.substr(2, tx.size() - 3) + "," + n + ")).\n";
    }
    bool j = json;
    bool ok = chain(c, pl, t, j, log);
    string res;
    for (int same = 0; ok && same < 2; same++) {
      auto r = gkc({"-print", "10", "-strategytext", "{\"strategy\":[\"unit\"],\"max_seconds\":300}", put(t, j), "-text", q + (same ? "p(X,0) & q(X,0) => g. fof(c,conjecture,g)." : "fof(c,conjecture,?[X,I,J]: (p(X,I) & q(X,J) & ($less(I,J) | $less(J,I)))).")});
      c.add("runs_of_gkc");
      if (r.timeout || r.sig || (r.out.find("proof found") != string::npos) != (bool)same || (!same && r.out.find("proof not found") == string::npos)) { ok = false; log += r.out; }
    }
    c.add("evaluations", (u64)v.size() * v.size());
    c.add("distinct_nontrivial", v.size());
    if (!ok) violation(c, "same:" + pl.name + (json ? "j" : "t"), string("two different symbols become the same") + (json ? ", written in JSON," : "") + " after: " + pl.name, {}, log.size() > 3000 ? log.substr(log.size() - 3000) : log);
  }, 1);
  d.texts["spelling"] = "all symbols of one and two" + string(d.quick() ? "" : " and three") + " of 29 characters, reserved words and lengths around the buffer sizes, as constant, function, predicate, proposition and distinct string; numbers and lists; each written in text and (where it has a spelling) in JSON, through seven conversion chains; all pairs kept apart";
}
void c07(Driver &d) {
  scratchdir = d.scratch;
  bool q = d.quick();
  Plan pl{{}, "read"};
  {
    auto L = levels(atoms0(), BIN, UN, 2);
    vector<int> v = uptok(L, 2);
    sweep(d, "C07", v, {{0, TPTPMIN, AX}, {0, GKCMIN, BARE}, {0, JSON, AX}, {0, JSON1, AX}, {0, JSON2, BARE}}, pl, 2);
    N.clear(); A.clear();
  }
  {
    vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(3), atom(4, 0, 2), atom(5)};
    auto L = levels(at, BIN, UN, 2);
    vector<int> v = uptok(L, 2);
    vector<Case> t;
    for (int syn : {TPTP, TPTPMIN, GKC, GKCMIN, GKCQ}) for (int r : {AX, CONJ, NEGCONJ, HYP, ASM, LEMMA, ANNOT, CNF, CNFNEG, CNFANNOT, BARE}) t.push_back({0, syn, r});
    for (int syn : {JSON, JSON1, JSON2}) for (int r : {AX, CONJ, NEGCONJ, HYP, ASM, QUEST, BARE}) t.push_back({0, syn, r});
    sweep(d, "C07", v, t, pl, 2);
    N.clear(); A.clear();
  }
  {
    // three connectives: where the omitted parentheses matter
    auto L = levels({atom(0, 0), atom(3)}, BIN, {NOT, ALLX, EXX}, 3);
    sweep(d, "C07", L[3], {{0, TPTPMIN, AX}, {0, GKCMIN, BARE}, {0, JSON, AX}, {0, JSON1, AX}, {0, JSON2, BARE}}, pl, 2);
    N.clear(); A.clear();
    L = levels({atom(0, 0), atom(2, 1, 7)}, {AND, OR}, {NOT, ALLX, ALLY, ALLZ, EXX, EXY, EXZ}, q ? 3 : 4);
    sweep(d, "C07", L[q ? 3 : 4], {{0, TPTPMIN, AX}, {0, GKCMIN, BARE}, {0, JSON1, AX}, {0, JSON2, BARE}}, pl, 2);
    N.clear(); A.clear();
    if (!q) {
      L = levels({atom(0, 0), atom(3)}, {AND, OR, IMP, RIMP, EQV}, {NOT, ALLX}, 4);
      sweep(d, "C07", L[4], {{0, TPTPMIN, AX}, {0, GKCMIN, BARE}, {0, JSON1, AX}, {0, JSON2, BARE}}, pl, 2);
      N.clear(); A.clear();
    }
  }
  {
    vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(3), atom(4, 0, 2)};
    if (q) at.erase(at.begin() + 1);
    auto L = levels(at, q ? vector<int>{AND, EQV, NOR} : BIN, q ? vector<int>{NOT, ALLX} : UN, 1);
    whites(d, uptok(L, 1));
    N.clear(); A.clear();
    sources(d);
    N.clear(); A.clear();
  }
}
void c08(Driver &d) {
  scratchdir = d.scratch;
  bool q = d.quick();
  spellings(d);
  vector<string> ct = {"-convert", "-tptp"}, cj = {"-convert", "-json"}, kt = {"-clausify", "-tptp"}, kj = {"-clausify", "-json"};
  struct P { Plan p; bool text, json; };
  for (auto &p : vector<P>{{{{ct}, "convert to TPTP"}, true, true}, {{{cj}, "convert to JSON"}, true, false}, {{{kt}, "clausify to TPTP"}, true, true}, {{{kj}, "clausify to JSON"}, true, true},
       {{{cj, ct}, "convert to JSON and to TPTP"}, true, false}, {{{ct, cj}, "convert to TPTP and to JSON"}, true, true}, {{{cj, kj}, "convert to JSON and clausify to JSON"}, true, false}, {{{kj, ct}, "clausify to JSON and convert to TPTP"}, true, true}, {{{ct, cj, ct, kj}, "four conversions"}, true, true}}) {
    N.clear(); A.clear();
    vector<int> at = {atom(0, 0), atom(2, 0, 1), atom(3), atom(4, 0, 2), atom(1, 4), atom(5)};
    auto L = levels(at, BIN, UN, 2);
    vector<int> v = uptok(L, 2);
    vector<Case> t;
    if (p.text) t = {{0, TPTP, AX}, {0, TPTP, CONJ}, {0, TPTPMIN, NEGCONJ}, {0, TPTPMIN, HYP}, {0, TPTPMIN, CNF}, {0, TPTPMIN, ANNOT}};
    if (p.json) for (auto &x : vector<Case>{{0, JSON, AX}, {0, JSON1, CONJ}, {0, JSON2, NEGCONJ}, {0, JSON1, ASM}, {0, JSON, QUEST}}) t.push_back(x);
    if (q && p.p.pre.size() > 1) t = p.json && p.text ? vector<Case>{{0, TPTP, AX}, {0, TPTP, CONJ}, {0, JSON, AX}, {0, JSON, CONJ}} : vector<Case>{{0, TPTP, AX}, {0, TPTP, CONJ}};
    sweep(d, "C08", v, t, p.p, 2);
  }
}
}  // namespace
static CheckReg r06("C06", c06), r07("C07", c07), r08("C08", c08);
