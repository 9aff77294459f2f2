// C27: arithmetic reasoning is sound. Clauses over the real numbers with linear terms are decided exactly
// (every cell of the arrangement of the hyperplanes of a clause is visited) under a fixed list of
// interpretations of the constant, the function and the predicate; a set true in one of them must not be
// refuted, and no proof step may go from true parents to a false conclusion.
#include "fol.hpp"

namespace {
struct Big {};  // number out of the range of the checker: no verdict
struct Q {
  long long n = 0, d = 1;
  Q() {}
  Q(long long a, long long b = 1) { set(a, b); }
  void set(__int128 a, __int128 b) {
    if (b < 0) a = -a, b = -b;
    __int128 x = a < 0 ? -a : a, y = b;
    while (y) { __int128 t = x % y; x = y; y = t; }
    if (x > 1) a /= x, b /= x;
    if (a > (1ll << 40) || a < -(1ll << 40) || b > (1ll << 40)) throw Big();
    n = (long long)a;
    d = (long long)b;
  }
  static Q mk(__int128 a, __int128 b) { Q q; q.set(a, b); return q; }
  Q operator+(const Q &o) const { return mk((__int128)n * o.d + (__int128)o.n * d, (__int128)d * o.d); }
  Q operator-(const Q &o) const { return mk((__int128)n * o.d - (__int128)o.n * d, (__int128)d * o.d); }
  Q operator*(const Q &o) const { return mk((__int128)n * o.n, (__int128)d * o.d); }
  Q operator/(const Q &o) const { return mk((__int128)n * o.d, (__int128)d * o.n); }
  bool operator<(const Q &o) const { return (__int128)n * o.d < (__int128)o.n * d; }
  bool operator==(const Q &o) const { return n == o.n && d == o.d; }
  int sgn() const { return n < 0 ? -1 : n > 0; }
  string s() const { return d == 1 ? std::to_string(n) : std::to_string(n) + "/" + std::to_string(d); }
};

// interpretation: a, b numbers, f(x) = fa*x+fb, the predicates p and r given by the signs at the points
struct Interp {
  string name;
  Q a, b, fa, fb;
  int p, r;
};
// predicates by number; all end points are in ENDS
bool pred(int k, const Q &x) {
  switch (k) {
    case 0: return false;
    case 1: return true;
    case 2: return x < Q(1);
    case 3: return !(x < Q(1));
    case 4: return x == Q(0);
    case 5: return !(x == Q(0));
    case 6: return !(Q(0) < x);
    case 7: return Q(0) < x && x < Q(2);
    case 8: return !(x == Q(1));
    case 9: return x == Q(1);
    case 10: return x == Q(2);
    case 11: return Q(1, 2) < x;
  }
  return false;
}
const char *PN[] = {"{}", "R", "{x<1}", "{x>=1}", "{0}", "R-{0}", "{x<=0}", "{0<x<2}", "R-{1}", "{1}", "{2}", "{x>1/2}"};
const int NP = 12;
const vector<Q> ENDS = {Q(0), Q(1), Q(2), Q(1, 2)};

// a linear form over numbered variables
struct Lin {
  vector<Q> k;  // coefficients
  Q c;
  bool ok = true;  // linear at all
};
struct CLit { bool pos; int kind; Lin l; int pr; };  // kind 0 l=0, 1 l<0, 2 l<=0, 3 pred(pr,l), 4 true, 5 false

struct NoVerdict {};
Q number(const string &s) {
  size_t dot = s.find('.');
  long long w = strtoll(s.c_str(), nullptr, 10);
  if (dot == string::npos) return Q(w);
  if (s.find_first_of("eE") != string::npos) throw NoVerdict();
  string fr = s.substr(dot + 1);
  while (!fr.empty() && fr.back() == '0') fr.pop_back();
  if (fr.size() > 6) throw NoVerdict();
  long long den = 1, num = 0;
  for (char ch : fr) {
    if (!isdigit(ch)) throw NoVerdict();
    num = num * 10 + (ch - '0');
    den *= 10;
  }
  Q v = Q(w < 0 ? -w : w) + Q(num, den);
  if (s[0] == '-') v = Q(0) - v;
  return v;
}
Lin lin(const Term &t, std::map<string, int> &vs, int nv, const Interp &I) {
  Lin o;
  o.k.assign(nv, Q());
  if (t.var) {
    auto it = vs.find(t.name);
    o.k[it->second] = Q(1);
    return o;
  }
  const string &n = t.name;
  if (t.args.empty()) {
    if (isdigit(n[0]) || (n[0] == '-' && n.size() > 1 && isdigit(n[1]))) o.c = number(n);
    else if (n == "a") o.c = I.a;
    else if (n == "b") o.c = I.b;
    else throw NoVerdict();
    return o;
  }
  vector<Lin> x;
  for (auto &u : t.args) x.push_back(lin(u, vs, nv, I));
  auto comb = [&](const Lin &p, Q pk, const Lin &q, Q qk) {
    Lin r;
    for (int i = 0; i < nv; i++) r.k.push_back(p.k[i] * pk + q.k[i] * qk);
    r.c = p.c * pk + q.c * qk;
    return r;
  };
  auto cst = [&](const Lin &p) { for (auto &q : p.k) if (q.sgn()) return false; return true; };
  if (x.size() == 2 && (n == "$sum" || n == "+")) return comb(x[0], 1, x[1], 1);
  if (x.size() == 2 && (n == "$difference" || n == "-")) return comb(x[0], 1, x[1], -1);
  if (x.size() == 1 && (n == "$uminus" || n == "-")) return comb(x[0], -1, x[0], 0);
  if (x.size() == 2 && (n == "$product" || n == "*")) {
    if (cst(x[0])) return comb(x[1], x[0].c, x[1], 0);
    if (cst(x[1])) return comb(x[0], x[1].c, x[0], 0);
    throw NoVerdict();
  }
  if (x.size() == 2 && (n == "$quotient" || n == "/")) {
    if (!cst(x[1]) || x[1].c.sgn() == 0) throw NoVerdict();
    return comb(x[0], Q(1) / x[1].c, x[0], 0);
  }
  if (x.size() == 1 && n == "f") {
    Lin r = comb(x[0], I.fa, x[0], 0);
    r.c = r.c + I.fb;
    return r;
  }
  throw NoVerdict();
}
vector<CLit> compile(const Clause &c, const Interp &I, int &nv) {
  std::set<string> s;
  for (auto &l : c) l.atom.vars(s);
  std::map<string, int> vs;
  for (auto &v : s) vs.emplace(v, (int)vs.size());
  nv = vs.size();
  vector<CLit> o;
  for (auto &l : c) {
    CLit x;
    x.pos = l.pos;
    x.pr = -1;
    const string &n = l.atom.name;
    if (n == "$true" || n == "$false") { x.kind = n == "$true" ? 4 : 5; o.push_back(x); continue; }
    vector<Lin> a;
    for (auto &t : l.atom.args) a.push_back(lin(t, vs, nv, I));
    auto diff = [&](int i, int j) {
      Lin r;
      for (int k = 0; k < nv; k++) r.k.push_back(a[i].k[k] - a[j].k[k]);
      r.c = a[i].c - a[j].c;
      return r;
    };
    if (a.size() == 2 && n == "=") x.kind = 0, x.l = diff(0, 1);
    else if (a.size() == 2 && (n == "$less" || n == "<")) x.kind = 1, x.l = diff(0, 1);
    else if (a.size() == 2 && (n == "$lesseq" || n == "<=")) x.kind = 2, x.l = diff(0, 1);
    else if (a.size() == 2 && (n == "$greater" || n == ">")) x.kind = 1, x.l = diff(1, 0);
    else if (a.size() == 2 && (n == "$greatereq" || n == ">=")) x.kind = 2, x.l = diff(1, 0);
    else if (a.size() == 1 && n == "p") x.kind = 3, x.l = a[0], x.pr = I.p;
    else if (a.size() == 1 && n == "r") x.kind = 3, x.l = a[0], x.pr = I.r;
    else throw NoVerdict();
    o.push_back(x);
  }
  return o;
}
bool lit_true(const CLit &x, const vector<Q> &v) {
  if (x.kind >= 4) return (x.kind == 4) == x.pos;
  Q s = x.l.c;
  for (size_t i = 0; i < v.size(); i++) s = s + x.l.k[i] * v[i];
  bool t = x.kind == 0 ? s.sgn() == 0 : x.kind == 1 ? s.sgn() < 0 : x.kind == 2 ? s.sgn() <= 0 : pred(x.pr, s);
  return t == x.pos;
}
// is the clause true at every point of R^nv? planes: all hyperplanes at which a literal can change
// visits a point in every cell of the arrangement: x0 at every critical value, between and outside
bool all_cells(const vector<CLit> &c, vector<Lin> planes, vector<Q> &v, size_t i, size_t nv, vector<Q> &wit) {
  if (i == nv) {
    for (auto &x : c) if (lit_true(x, v)) return true;
    wit = v;
    return false;
  }
  // project the planes on variable i: eliminate the later variables one after the other
  vector<Lin> pr = planes;
  auto key = [&](const Lin &l) {
    string s = l.c.s();
    for (auto &q : l.k) s += " " + q.s();
    return s;
  };
  auto norm = [&](Lin l) {
    for (size_t j = 0; j < l.k.size(); j++)
      if (l.k[j].sgn()) {
        Q q = l.k[j];
        for (auto &z : l.k) z = z / q;
        l.c = l.c / q;
        break;
      }
    return l;
  };
  for (size_t j = nv; j-- > i + 1;) {
    vector<Lin> with, rest;
    for (auto &l : pr) (l.k[j].sgn() ? with : rest).push_back(l);
    std::set<string> seen;
    vector<Lin> nx;
    for (auto &l : rest) { Lin m = norm(l); if (seen.insert(key(m)).second) nx.push_back(m); }
    for (size_t a = 0; a < with.size(); a++)
      for (size_t b = a + 1; b < with.size(); b++) {
        Lin m;
        Q qa = with[b].k[j], qb = with[a].k[j];
        for (size_t k = 0; k < nv; k++) m.k.push_back(with[a].k[k] * qa - with[b].k[k] * qb);
        m.c = with[a].c * qa - with[b].c * qb;
        m = norm(m);
        if (seen.insert(key(m)).second) nx.push_back(m);
      }
    if (nx.size() > 400) throw Big();
    pr.swap(nx);
  }
  std::set<Q> crit;
  for (auto &l : pr) if (l.k[i].sgn()) crit.insert(Q(0) - l.c / l.k[i]);
  vector<Q> pts;
  if (crit.empty()) pts.push_back(Q(0));
  else {
    vector<Q> cv(crit.begin(), crit.end());
    pts.push_back(cv[0] - Q(1));
    for (size_t k = 0; k < cv.size(); k++) {
      pts.push_back(cv[k]);
      pts.push_back(k + 1 < cv.size() ? (cv[k] + cv[k + 1]) * Q(1, 2) : cv[k] + Q(1));
    }
  }
  for (auto &x : pts) {
    v[i] = x;
    vector<Lin> sub = planes;
    for (auto &l : sub) {
      l.c = l.c + l.k[i] * x;
      l.k[i] = Q();
    }
    if (!all_cells(c, sub, v, i + 1, nv, wit)) return false;
  }
  return true;
}
// 1 true, 0 false (wit: the values of the variables), -1 no verdict
int truth(const Clause &c, const Interp &I, string *wit = nullptr) {
  try {
    int nv = 0;
    vector<CLit> x = compile(c, I, nv);
    if (nv > 3) return -1;
    vector<Lin> pl;
    for (auto &l : x) {
      if (l.kind >= 4) continue;
      if (l.kind < 3) pl.push_back(l.l);
      else for (auto &e : ENDS) { Lin m = l.l; m.c = m.c - e; pl.push_back(m); }
    }
    vector<Q> v(nv), w;
    bool t = all_cells(x, pl, v, 0, nv, w);
    if (!t && wit) {
      std::set<string> s;
      for (auto &l : c) l.atom.vars(s);
      size_t i = 0;
      for (auto &n : s) *wit += n + "=" + w[i++].s() + " ";
    }
    return t;
  } catch (NoVerdict &) { return -1; } catch (Big &) { return -1; }
}

vector<Interp> interps(bool fun, bool two) {
  vector<Interp> o;
  vector<Q> av = {Q(0), Q(1), Q(2), Q(1, 2)};
  vector<std::pair<Q, Q>> fv = {{Q(1), Q(1)}};
  if (fun) fv = {{Q(1), Q(1)}, {Q(1), Q(0)}, {Q(-1), Q(0)}, {Q(2), Q(0)}, {Q(0), Q(1)}};
  for (int p = 0; p < NP; p++)
    for (size_t i = 0; i < (fun ? 3 : av.size()); i++)
      for (auto &f : fv)
        for (int r = 0; r < (two ? NP : 1); r++) {
          Interp I;
          I.a = av[i];
          I.b = two ? Q(1) - av[i] : Q(1);
          I.fa = f.first;
          I.fb = f.second;
          I.p = p;
          I.r = r;
          I.name = "p=" + string(PN[p]) + " a=" + I.a.s() + (fun ? " f(x)=" + f.first.s() + "x+" + f.second.s() : "") + (two ? " r=" + string(PN[r]) + " b=" + I.b.s() : "");
          o.push_back(I);
        }
  return o;
}

struct Conf { string name, text; };
vector<Conf> confs(bool quick) {
  vector<Conf> o;
  auto add = [&](string s, int qp, int m, string extra = "") {
    string q;
    for (size_t i = 0; i <= s.size();) {
      size_t j = s.find('+', i);
      if (j == string::npos) j = s.size();
      q += (q.empty() ? "\"" : ",\"") + s.substr(i, j - i) + "\"";
      i = j + 1;
    }
    o.push_back({s + " qp" + std::to_string(qp) + " arith" + std::to_string(m) + extra,
                 "{\"strategy\":[" + q + "],\"query_preference\":" + std::to_string(qp) + ",\"arith_instantiation\":" + std::to_string(m) + extra + ",\"max_seconds\":1}"});
  };
  add("unit", 0, 2);
  add("negative_pref", 0, 1);
  add("negative_pref", 0, 2);
  add("hyper", 0, 0);
  add("negative_pref+posunitpara", 1, 2);
  if (!quick) {
    add("unit", 0, 0);
    add("unit", 0, 1);
    add("hyper", 0, 2);
    add("knuthbendix_pref", 0, 2);
    add("hardness_pref", 0, 2);
    add("query_focus", 1, 2);
    add("double", 0, 2);
    add("negative_pref", 3, 2, ",\"arith_inst_max_vars\":2,\"arith_inst_keep_limit\":8,\"arith_inst_depth_limit\":4");
  }
  return o;
}

vector<string> argv_of(const string &text, const Conf &cf) {
  return {"-mbsize", "10", "-parallel", "0", "-print", "10", "-strategytext", cf.text, "-text", text};
}

// truth of the pool clauses under each interpretation
struct Pool {
  vector<Clause> cls;
  vector<Interp> is;
  vector<vector<signed char>> tv;  // [clause][interp]
  void add(const string &s) { cls.push_back(parse_clause(s)); }
  void finish() {
    tv.assign(cls.size(), vector<signed char>(is.size(), -1));
    for (size_t i = 0; i < cls.size(); i++)
      for (size_t k = 0; k < is.size(); k++) tv[i][k] = truth(cls[i], is[k]);
  }
};

struct Memo {
  std::unordered_map<string, vector<signed char>> m;
  const vector<signed char> &get(const Clause &c, const vector<Interp> &is) {
    string k = str(c);
    auto it = m.find(k);
    if (it != m.end()) return it->second;
    if (m.size() > 200000) m.clear();
    vector<signed char> v;
    for (auto &I : is) v.push_back(truth(c, I));
    return m[k] = v;
  }
};
Memo &memo() { static Memo m; return m; }

bool has_real(const Clause &c) { return str(c).find('.') != string::npos; }

void check_set(Ctx &c, const Pool &P, const vector<int> &set, const Conf &cf, const string &fam) {
  vector<Clause> cs;
  for (int i : set) cs.push_back(P.cls[i]);
  string text = str(cs);
  RunOpt o;
  o.wall = 60;
  o.clock_step = 1000;
  auto args = argv_of(text, cf);
  RunResult r = run_gkc(args, o);
  c.add("runs");
  c.add("runs: " + fam);
  string key = cf.name + ": " + text;
  if (r.timeout || r.sig) { violation(c, "end:" + key, r.timeout ? "the run does not end" : "the run crashed", args, r.out); return; }
  Output out = parse_output(r.out);
  int model = -1;
  for (size_t k = 0; k < P.is.size() && model < 0; k++) {
    bool all = true;
    for (int i : set) if (P.tv[i][k] != 1) { all = false; break; }
    if (all) model = k;
  }
  if (model >= 0) c.add("sets true in a listed interpretation");
  if (!out.found) {
    if (r.code != 0 || !out.notfound) violation(c, "fail:" + key, "neither a proof nor 'not found' for a well-formed clause set (exit code " + std::to_string(r.code) + ")", args, r.out);
    return;
  }
  c.add("proofs");
  if (model >= 0) {
    violation(c, "unsound:" + key, "a proof of a clause set that is true in the reals under " + P.is[model].name + ": " + text, args, r.out);
    return;
  }
  for (auto &a : out.answers) {
    std::map<int, const Step *> by;
    for (auto &s : a.steps) by[s.nr] = &s;
    for (auto &s : a.steps) {
      if (has_real(s.cl)) { c.add("steps with reals (not decided)"); continue; }
      if (s.parents.empty()) {
        if (s.rule == "in") {
          Clause k = canon(s.cl);
          bool found = false;
          for (auto &x : cs) if (canon(x) == k) { found = true; break; }
          if (!found) {
            // input clauses may be printed after evaluation of their ground terms: compare by meaning
            auto &t = memo().get(s.cl, P.is);
            for (size_t i = 0; i < set.size() && !found; i++) {
              bool same = true;
              for (size_t q = 0; q < P.is.size(); q++) if (t[q] < 0 || t[q] != P.tv[set[i]][q]) { same = false; break; }
              found = same;
            }
            if (!found) violation(c, "input:" + key, "a proof cites an input clause that was not given: " + s.text, args, r.out);
          }
          c.add("input steps");
          continue;
        }
        continue;
      }
      vector<const vector<signed char> *> pv;
      vector<signed char> cv = memo().get(s.cl, P.is);
      bool bad = false, real = false;
      for (int p : s.parents) {
        if (!by.count(p) || p >= s.nr) { bad = true; break; }
        if (has_real(by[p]->cl)) real = true;
      }
      if (bad) { violation(c, "parents:" + key, "a proof step cites a later or missing step: " + s.text, args, r.out); break; }
      if (real) { c.add("steps with reals (not decided)"); continue; }
      vector<vector<signed char>> pc;
      for (int p : s.parents) pc.push_back(memo().get(by[p]->cl, P.is));
      bool dec = false;
      for (size_t k = 0; k < P.is.size(); k++) {
        bool all = true;
        for (auto &x : pc) if (x[k] != 1) all = false;
        if (!all) continue;
        dec = true;
        if (cv[k] == 0) {
          string w;
          truth(s.cl, P.is[k], &w);
          violation(c, "step:" + key, "proof step " + std::to_string(s.nr) + " (" + s.rule + ") goes from clauses true in the reals under " + P.is[k].name + " to " + (s.isfalse ? string("false") : s.text) + ", which is false there" + (w.empty() ? "" : " at " + w), args, r.out);
          return;
        }
      }
      c.add(dec ? "steps decided in a listed interpretation" : "steps with parents false in all listed interpretations");
    }
  }
}

const char *REL[] = {"=", "$less", "$lesseq", "$greater", "$greatereq"};
string cmp(int rel, bool pos, const string &x, const string &y) {
  if (rel == 0) return x + (pos ? " = " : " != ") + y;
  return (pos ? "" : "-") + string(REL[rel]) + "(" + x + "," + y + ")";
}

vector<string> comps(const vector<std::pair<string, string>> &pairs, const vector<int> &rels) {
  vector<string> o;
  for (auto &p : pairs)
    for (int r : rels)
      for (int s = 0; s < 2; s++) o.push_back(cmp(r, s == 0, p.first, p.second));
  return o;
}

void run_sets(Driver &d, const Pool &P, const vector<vector<int>> &sets, const vector<Conf> &cf, const string &fam) {
  u64 n = (u64)sets.size() * cf.size();
  d.pfor(n, [&](u64 i, Ctx &c) { check_set(c, P, sets[i / cf.size()], cf[i % cf.size()], fam); });
  fprintf(stderr, "  %s: %zu sets, %.1f s\n", fam.c_str(), sets.size(), now_s() - d.t0);
}

// batches: for each interpretation, all pool clauses true in it, in consecutive and strided groups
void run_batches(Driver &d, const Pool &P, size_t k, const vector<size_t> &strides, const vector<Conf> &cf, const string &fam) {
  std::set<vector<int>> sets;
  for (size_t q = 0; q < P.is.size(); q++) {
    vector<int> t;
    for (size_t i = 0; i < P.cls.size(); i++) if (P.tv[i][q] == 1) t.push_back(i);
    for (size_t st : strides) {
      vector<int> ord;
      for (size_t b = 0; b < st; b++) for (size_t j = b; j < t.size(); j += st) ord.push_back(t[j]);
      for (size_t b = 0; b < ord.size(); b += k) sets.insert(vector<int>(ord.begin() + b, ord.begin() + std::min(ord.size(), b + k)));
    }
  }
  run_sets(d, P, vector<vector<int>>(sets.begin(), sets.end()), cf, fam);
}

void c27(Driver &d) {
  bool quick = d.quick();
  auto cf = confs(quick);
  vector<std::pair<string, string>> pairs = {{"X", "0"}, {"X", "1"}, {"1", "X"}, {"X", "a"}, {"$sum(X,1)", "X"}, {"$sum(X,1)", "1"}, {"$sum(1,X)", "2"}, {"$product(2,X)", "X"},
    {"$product(2,X)", "2"}, {"$difference(0,X)", "X"}, {"$difference(X,1)", "0"}, {"a", "1"}, {"$sum(a,1)", "2"}, {"X", "Y"}, {"$sum(X,Y)", "1"}, {"$sum(X,1)", "Y"}, {"$difference(X,Y)", "0"}, {"$sum(X,X)", "2"}};
  vector<string> pl = {"p(X)", "-p(X)", "p($sum(X,1))", "-p($sum(X,1))", "p(1)", "-p(1)", "p(a)", "-p(a)", "p(2)", "-p(2)", "p(0)", "-p(0)", "p($product(2,X))", "-p($difference(0,X))", "-p($sum(a,1))", "p($difference(1,X))"};
  auto cl = comps(pairs, {0, 1, 2, 3, 4});
  {
    // units and two-literal clauses
    Pool P;
    P.is = interps(false, false);
    vector<int> units, bins, punits, mini;
    for (auto &s : cl) { units.push_back(P.cls.size()); P.add(s); }
    for (auto &s : pl) { units.push_back(P.cls.size()); punits.push_back(P.cls.size()); P.add(s); }
    size_t ci = 0;
    for (auto &s : cl) {
      for (size_t j = 0; j < pl.size(); j++) {
        bins.push_back(P.cls.size());
        if (ci % 10 < 4 && (j == 0 || j == 1 || j == 2 || j == 3)) mini.push_back(P.cls.size());
        P.add(s + " | " + pl[j]);
      }
      ci++;
    }
    P.finish();
    vector<vector<int>> sets;
    for (int u : units) sets.push_back({u});
    for (int b : bins) sets.push_back({b});
    run_sets(d, P, sets, cf, "single clauses");
    sets.clear();
    for (size_t i = 0; i < units.size(); i++) for (size_t j = i + 1; j < units.size(); j++) sets.push_back({units[i], units[j]});
    if (quick) run_sets(d, P, sets, {cf[2]}, "pairs of units"); else run_sets(d, P, sets, cf, "pairs of units");
    sets.clear();
    for (int b : bins) for (int u : punits) sets.push_back({b, u});
    if (quick) run_sets(d, P, sets, {cf[0]}, "two-literal clause and unit"); else run_sets(d, P, sets, cf, "two-literal clause and unit");
    run_batches(d, P, 6, quick ? vector<size_t>{1, 37} : vector<size_t>{1, 7, 37, 101}, cf, "batches true in an interpretation");
    if (!quick) {
      sets.clear();
      for (size_t i = 0; i < mini.size(); i++) for (size_t j = i + 1; j < mini.size(); j++) sets.push_back({mini[i], mini[j]});
      run_sets(d, P, sets, {cf[2], cf[0]}, "pairs of two-literal clauses");
    }
  }
  {
    // equations over a function and arithmetic terms
    Pool P;
    P.is = interps(true, false);
    vector<string> t = {"f(X)", "f(0)", "f(a)", "f(f(X))", "f($sum(X,1))", "a"};
    vector<string> u = {"X", "$sum(X,1)", "1", "a", "f(1)", "$sum(f(X),1)", "$product(2,X)", "$difference(0,X)"};
    vector<string> lits;
    for (auto &x : t) for (auto &y : u) for (int r : {0, 1, 2}) for (int s = 0; s < 2; s++) lits.push_back(cmp(r, s == 0, x, y));
    for (auto x : {"p(f(X))", "-p(f(X))", "p(a)", "-p(1)", "p(X)", "-p($sum(X,1))"}) lits.push_back(x);
    for (auto &s : lits) P.add(s);
    int nl = P.cls.size();
    for (int i = 0; i < nl; i++)
      for (auto x : {"p(f(X))", "-p(f(X))", "p(X)", "-p(X)", "$less(X,1)", "X = a", "$lesseq(1,X)"}) P.add(lits[i] + " | " + x);
    P.finish();
    vector<vector<int>> sets;
    for (size_t i = 0; i < P.cls.size(); i++) sets.push_back({(int)i});
    run_sets(d, P, sets, quick ? vector<Conf>{cf[1], cf[4]} : cf, "equations, single clauses");
    sets.clear();
    for (int i = 0; i < nl; i++) for (int j = i + 1; j < nl; j++) sets.push_back({i, j});
    if (quick) run_sets(d, P, sets, {cf[2]}, "equations, pairs of units"); else run_sets(d, P, sets, cf, "equations, pairs of units");
    run_batches(d, P, 5, quick ? vector<size_t>{1} : vector<size_t>{1, 7, 37, 101}, quick ? vector<Conf>{cf[0], cf[1], cf[4]} : cf, "equations, batches true in an interpretation");
  }
  {
    // numbers of every size where other clauses have compound terms (and the other way round)
    Pool P;
    P.is = interps(true, false);
    vector<string> nums = {"0", "1", "-1", "-5", "7", "100000", "123456789", "-123456789", "2147483648"};
    vector<string> cmpd = {"f(0)", "f(a)", "f(X)", "f(f(0))", "a"};
    vector<int> L, R;
    for (auto &n : nums) {
      for (auto x : {"p($sum(X,%)) | $less(X,1)", "-p($sum(X,%)) | X = a", "f($sum(X,%)) = X", "f($sum(X,%)) = X | p(X)", "f(%) = a", "$sum(f(%),X) != f(X) | -p(%)"}) {
        string t = x;
        t.replace(t.find('%'), 1, n);
        if (t.find('%') != string::npos) t.replace(t.find('%'), 1, n);
        L.push_back(P.cls.size());
        P.add(t);
      }
    }
    for (auto &n : cmpd) {
      for (auto x : {"p($sum(a,%)) | a = 1", "-p($sum(a,%)) | $less(a,1)", "p(f($sum(a,%)))", "f($sum(f(0),%)) = a", "$sum(a,%) = f(a) | -p(a)", "-p($sum(f(a),%)) | p(f(1))"}) {
        string t = x;
        t.replace(t.find('%'), 1, n);
        R.push_back(P.cls.size());
        P.add(t);
      }
    }
    P.finish();
    vector<vector<int>> sets;
    for (int a : L) for (int b : R) sets.push_back({a, b});
    for (int a : L) for (int b : R) sets.push_back({b, a, R[(b * 7 + 1) % R.size()]});
    for (auto &t : sets) { std::set<int> u(t.begin(), t.end()); t.assign(u.begin(), u.end()); }
    run_sets(d, P, sets, quick ? vector<Conf>{cf[0], cf[2], cf[4]} : cf, "numbers and compound terms");
  }
  d.texts["bounds"] = "comparisons of 18 pairs of linear terms by 5 relations, both signs; 16 literals of one predicate; equations and comparisons of 6 x 8 terms with a function; sets of one or two clauses with up to two literals and batches of five or six clauses; interpretations: 12 predicates x 4 values of a (and 5 functions); " + std::to_string(cf.size()) + " strategies with arith_instantiation 0, 1, 2";
}
CheckReg r27("C27", c27);
}  // namespace
